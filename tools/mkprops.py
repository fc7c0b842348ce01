#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the wording is reviewable in one place).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                     "mechanism": [dict(name=n, where=w) for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    P.append(d)

BIN = ["src/serde_bin.rs", "derive/src/serde_bin.rs"]
JSON = ["src/serde_json.rs", "derive/src/serde_json.rs"]
RON = ["src/serde_ron.rs", "derive/src/serde_ron.rs"]
DER = ["derive/src/parse.rs", "derive/src/shared.rs", "derive/src/lib.rs"]

p("C01", "Binary round trip is exact and self-delimiting",
  "For every value of every supported type (all primitives, String, Option, Vec, LinkedList, sets, maps, arrays, tuples, Box, Duration, SystemTime at or after the epoch, and derived structs/enums), deserializing its binary serialization yields an equal value, floats bit for bit (a struct field marked `skip` comes back as its type's Default). Decoding through de_bin at any offset of a larger buffer consumes exactly the bytes the value serialized to and advances the offset by exactly that many, so values written one after another are read back in order.",
  ["inputs"], "all values of all supported types, at all offsets of a larger buffer and in all concatenation orders",
  "The tests round-trip a dozen fixed values from offset 0; large lengths, extreme integers, NaN payloads, deep nesting, wide enums and mid-buffer offsets are never sampled.",
  BIN, [("SerBin/DeBin impls", "src/serde_bin.rs"), ("derived ser_bin/de_bin", "derive/src/serde_bin.rs")],
  [("offset", "index of the next byte to read", "DeBin::de_bin argument")], ["SerBin::serialize_bin", "SerBin::ser_bin", "DeBin::deserialize_bin", "DeBin::de_bin"])
p("C02", "The binary wire format is the fixed documented layout",
  "Serialized bytes are exactly: numbers little-endian at their own width, usize and every length prefix as 8-byte little-endian, bool and the Option tag as one byte (0/1), strings and sequences/sets/maps as length then contents in iteration order, arrays/tuples/Box/struct fields unframed in declaration order, enum values as a 2-byte little-endian variant index followed by the variant's fields, Duration as 8-byte seconds plus 4-byte nanoseconds, SystemTime as an optional Duration since the epoch (absent when before it). Bytes produced by an independent writer of that layout decode to the same value, so data stored by another build or version stays readable.",
  ["inputs"], "all values of all supported types, compared with an independent encoder in both directions",
  "Only a few literal byte vectors are compared by the tests; a matching change in writer and reader would pass every round-trip test while making stored data unreadable.",
  BIN, [("to_le_bytes / from_le_bytes", "src/serde_bin.rs impl_ser_de_bin_for"), ("u16 variant index", "derive/src/serde_bin.rs derive_ser_bin_enum")],
  (), ["SerBin::serialize_bin", "DeBin::deserialize_bin"])
p("C03", "Binary decoding of untrusted bytes is total and bounded",
  "For every byte string and every start offset, binary decoding of every supported type whose elements occupy at least one byte terminates with Ok or Err: it never panics, aborts, overflows or reads outside the buffer, its memory use is bounded by a constant factor of the input length whatever lengths the input claims, and after success the offset lies within the buffer. An encoding cut short anywhere is an error, never a shorter value; an unknown enum index, invalid UTF-8 and out-of-range nanoseconds are errors.",
  ["inputs"], "all byte strings (random, mutated and truncated encodings, hostile length prefixes), all offsets including beyond the end, all supported types",
  "The tests decode one or two malformed buffers; the space of length prefixes and truncation points is not sampled at all.",
  BIN, [("length checks against d.len()", "src/serde_bin.rs"), ("unknown discriminant branch", "derive/src/serde_bin.rs derive_de_bin_enum")],
  (), ["DeBin::deserialize_bin", "DeBin::de_bin"])
p("C04", "JSON round trip preserves every value",
  "For every value of every JSON-supported type (finite floats, options not nested directly in options), deserialize_json(serialize_json(v)) succeeds and equals v exactly, floats bit for bit; named fields marked `skip` come back as their declared default or their type's Default, and a None that is left out comes back as what a missing field becomes. This holds for derived structs, tuple structs, transparent newtypes, unit structs and enums of every variant shape, with rename, default, proxy and serialize_none_as_null attributes in any combination.",
  ["inputs"], "all values of all JSON-supported types and attribute combinations",
  "The tests serialize or parse small fixed values, mostly in one direction; strings needing escapes, number extremes, None in every position, empty collections and attribute combinations are barely sampled.",
  JSON, [("SerJson/DeJson impls", "src/serde_json.rs"), ("derived ser_json/de_json", "derive/src/serde_json.rs")],
  (), ["SerJson::serialize_json", "DeJson::deserialize_json"])
p("C05", "JSON output is standard JSON that denotes the value",
  "For every value whose map keys are strings (or unit enum variants), serialize_json emits one RFC 8259 JSON document, accepted by a strict parser, with no duplicate or missing members. It denotes the value in the documented mapping: named structs are objects with the (renamed) non-skipped fields, a None field is omitted or is null when serialize_none_as_null is set, sequences/sets/arrays/tuples/tuple structs are arrays, maps are objects, unit variants are strings, other variants are one-member objects holding an array or an object, Duration is {secs[,nanos]}.",
  ["inputs"], "all values with string-keyed maps, judged by an independent strict JSON parser",
  "The tests compare a few literal outputs; whether every emitted document is valid JSON readable by other software cannot be settled by examples parsed by the same lenient library.",
  JSON, [("SerJsonState field/label/conl", "src/serde_json.rs"), ("string escaping", "src/serde_json.rs impl_ser_json_string"), ("comma placement", "derive/src/serde_json.rs")],
  (), ["SerJson::serialize_json"])
p("C06", "JSON decoding accepts every standard spelling of a value",
  "Any JSON document that denotes a value of the target type decodes to exactly that value, whatever the spelling: insignificant whitespace and line endings, member order of objects, any escape form for any character in strings and member names (short escapes, \\uXXXX in either case, surrogate pairs, escaped solidus, or literal), any standard number spelling for floats (exponents with either sign, integers of any size). Comments (// and /* */) between tokens and a trailing comma after the last element of an array or the last member of a struct's object or a map are accepted too and change nothing.",
  ["inputs"], "all values times all spellings of each, generated by an independent writer that randomises every free choice",
  "The tests feed hand-written documents in one or two spellings each.",
  JSON, [("DeJsonState::next_tok", "src/serde_json.rs"), ("hex_unescape_char", "src/serde_json.rs"), ("derive_de_json_named", "derive/src/serde_json.rs")],
  (), ["DeJson::deserialize_json"])
p("C07", "Malformed JSON is rejected with an error, never a panic or hang",
  "Decoding any string whatsoever into any supported type terminates with Ok or Err, without panic, abort or endless loop, in time and memory bounded by the input. A document that is cut short before its value ends, that has a missing or doubled separator, a mismatched bracket, a missing member, too many or too few elements for a fixed-size type, an unterminated string or comment, a \\u escape with non-hex digits or an unpaired surrogate, or a member of the wrong kind in the part decoded into the type is an error, never a silently different value.",
  ["inputs"], "all strings: random text, token soup, truncations and structural mutations of valid documents, for all types",
  "The tests try a handful of bad documents; error paths inside skipped members, arrays and enum payloads are not reached.",
  JSON, [("err_token paths", "src/serde_json.rs"), ("whole_field", "src/serde_json.rs"), ("eat_comma_block/eat_comma_curly", "src/serde_json.rs")],
  (), ["DeJson::deserialize_json"])
p("C08", "Integers in text formats are exact or rejected, never wrapped",
  "Decoding an integer literal from JSON or RON into an integer type yields exactly that number when it lies in the type's range, and an error when it does not (too large, too small, negative for unsigned, fractional or exponent form): no literal of any length or sign ever decodes to a different number. Every in-range value of every integer type, including the extremes, is also written exactly.",
  ["inputs"], "all integer types times all decimal literals, concentrated around every type's bounds and every power of two/ten, standalone and nested",
  "The tests check a few literals; the boundaries of each width and literals beyond 64 bits are not covered.",
  ["src/serde_json.rs", "src/serde_ron.rs"], [("u64_range / i64_range", "src/serde_json.rs, src/serde_ron.rs"), ("number lexing", "next_tok")],
  (), ["DeJson::deserialize_json", "DeRon::deserialize_ron"])
p("C09", "JSON struct members map to fields by name as declared",
  "For a derived struct or struct variant, each member sets exactly the field of that (renamed) name and members with other names are ignored whatever their content; a missing member gives the declared default (default, default = value, default_with, container default), None for an Option, and an error for any other field. A null for an Option field is None, a skipped field is never read or written, and none of this depends on member order or on which other members are present.",
  ["inputs"], "all derived shapes times all subsets and permutations of members, extra members with arbitrary values, and nulls",
  "Each attribute is tested once, alone, on one document; combinations, orders and hostile extra members are not.",
  JSON + DER, [("derive_de_json_named", "derive/src/serde_json.rs"), ("whole_field", "src/serde_json.rs"), ("attrs_*", "derive/src/shared.rs")],
  (), ["DeJson::deserialize_json", "SerJson::serialize_json"])
p("C10", "RON round trip preserves every value",
  "For every value of every RON-supported type (finite floats, options not nested directly in options), deserialize_ron(serialize_ron(v)) succeeds and equals v exactly, floats bit for bit; fields marked `skip` come back as their declared default or their type's Default, and a None that is left out comes back as what a missing field becomes. This holds for derived structs, tuple structs and enums of every variant shape with rename (to an identifier) and default attributes in any combination.",
  ["inputs"], "all values of all RON-supported types and attribute combinations",
  "The tests round-trip a few small fixed values.",
  RON, [("SerRon/DeRon impls", "src/serde_ron.rs"), ("derived ser_ron/de_ron", "derive/src/serde_ron.rs")],
  (), ["SerRon::serialize_ron", "DeRon::deserialize_ron"])
p("C11", "RON output is well formed and denotes the value",
  "For every value, serialize_ron emits one well-formed document in the documented RON mapping, readable by an independent parser and denoting exactly the value: structs as (name:value,...) without None and skipped fields, fixed arrays and tuples as (...), sequences and sets as [...], maps as {key:value}, variants as Name, Name(...) or Name(name:value,...), strings with quotes, backslashes, newlines, carriage returns, tabs and NUL escaped, unit as (), None for an absent optional element.",
  ["inputs"], "all values, judged by an independent RON parser",
  "Few literal outputs are compared; a writer change matched by the lenient reader would pass round-trip tests.",
  RON, [("SerRonState", "src/serde_ron.rs"), ("derive_ser_ron_*", "derive/src/serde_ron.rs")],
  (), ["SerRon::serialize_ron"])
p("C12", "RON decoding accepts every spelling of a value",
  "Any document in the accepted RON syntax that denotes a value of the target type decodes to exactly that value, whatever the spelling: whitespace and line endings, // and /* */ comments anywhere between tokens, presence or absence of a trailing comma, order of named fields and of map entries, escape forms in strings, number spellings (sign, leading point for floats, exponents with either sign, integers for floats).",
  ["inputs"], "all values times all spellings generated by an independent writer",
  "The tests feed a few hand-written documents.",
  RON, [("DeRonState::next_tok", "src/serde_ron.rs"), ("derive_de_ron_named", "derive/src/serde_ron.rs")],
  (), ["DeRon::deserialize_ron"])
p("C13", "Malformed RON is rejected with an error, never a panic or hang",
  "Decoding any string whatsoever as RON into any supported type terminates with Ok or Err, without panic, abort or endless loop, in time and memory bounded by the input. A document that is cut short before its value ends, that has a missing or doubled separator, a mismatched bracket, too many or too few elements for a fixed-size type, an unterminated string, a \\u escape with non-hex digits or an unpaired surrogate, a stray token or a value of the wrong kind is an error, never a silently different value.",
  ["inputs"], "all strings: random text, token soup, truncations and structural mutations of valid documents, for all types",
  "The tests try a handful of bad documents.",
  RON, [("err_token paths", "src/serde_ron.rs"), ("eat_comma_paren/block/curly", "src/serde_ron.rs")],
  (), ["DeRon::deserialize_ron"])
p("C14", "RON struct members map to fields by name as declared",
  "For a derived struct or struct variant, each named member sets exactly the field of that (renamed) name and an unknown member is an error; a missing member gives the declared default (default, default = value, default_with, container default), None for an Option, and an error for any other field. `None` for an Option field is None, a skipped field is never read or written, and none of this depends on member order or on which other members are present.",
  ["inputs"], "all derived shapes times all subsets and permutations of members, and unknown members",
  "Each attribute is tested once, alone, on one document.",
  RON + DER, [("derive_de_ron_named", "derive/src/serde_ron.rs"), ("attrs_*", "derive/src/shared.rs")],
  (), ["DeRon::deserialize_ron", "SerRon::serialize_ron"])
p("C15", "TOML documents decode to exactly what they say",
  "For every document in the supported subset (comments, bare keys, also those that look like numbers, dates or words, quoted keys, dotted bare keys, [tables] and [[arrays of tables]] with such names, basic and triple-quoted strings with the standard character escapes, decimal integers with signs and underscores, decimal floats, inf/nan with signs, booleans, dates, nested and multi-line arrays with optional trailing comma), parsing succeeds and returns exactly the stated keys (prefixed by the enclosing table's name) with exactly the stated values, in order within arrays. Whitespace, comments, line endings and blank lines never change the result.",
  ["inputs"], "all documents of the subset, generated together with the expected map",
  "The tests parse about a dozen small documents.",
  ["src/toml.rs"], [("TomlParser::next_tok / parse_line / to_val", "src/toml.rs"), ("Out::start_array", "src/toml.rs")],
  [("active_array_element", "the [[array]] element that currently receives keys", "src/toml.rs Out")], ["TomlParser::parse"])
p("C16", "TOML parsing of arbitrary text is total",
  "Parsing any string whatsoever as TOML terminates with Ok or Err, without panic, abort or endless loop, in time and memory bounded by the input, however long its keys, strings, comments and arrays are. A missing '=', a missing value, an unterminated string, array or table header, a stray separator at the start of a line, an illegal character (also in a bare key), an escape that denotes no character, and an array of tables named like an existing value are errors.",
  ["inputs"], "all strings: random text, TOML-shaped token soup, mutated and truncated documents, long inputs",
  "One or two malformed documents are tested.",
  ["src/toml.rs"], [("err_token / err_parse", "src/toml.rs")], (), ["TomlParser::parse"])
p("C17", "Derive works for every supported type definition",
  "For every struct or enum definition in the supported language (named, tuple and unit structs, enums mixing unit/tuple/struct variants, generics with bounds, where-clauses, defaults and const parameters, any visibility, doc comments and foreign attributes, nested and qualified type paths, definitions written out by macro_rules macros from the parts these are given, types with lifetimes that borrow what they write (serialization only: a borrowing type writes what its owning twin writes), every supported nserde attribute on containers, fields and variants), the derive macros of each format compile. The generated code then follows the same data mapping as for any other type: round trips hold, output denotes the value, and every attribute on every position takes effect on exactly the item it annotates and no other.",
  ["programs", "inputs"], "all type definitions of the supported grammar (generated programs, compiled and run) times values of each",
  "The tests contain a fixed few dozen definitions; the derive's hand-written token parser sees only those shapes.",
  DER + ["derive/src/serde_bin.rs", "derive/src/serde_json.rs", "derive/src/serde_ron.rs"],
  [("parse_data and helpers", "derive/src/parse.rs"), ("code generators", "derive/src/serde_*.rs"), ("attribute lookup", "derive/src/shared.rs")],
  (), ["#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]"])
p("C18", "Decoding never leaks or double-drops elements, even on error",
  "During any decode, in any format, of a type containing fixed-size arrays or any other container, every element value that was constructed is dropped exactly once: those decoded before an error are dropped when the error is returned, and those in a successful result are dropped once with the result. Nothing uninitialised is ever dropped or returned.",
  ["inputs", "fault_sequences"], "all container shapes and array lengths times every position at which decoding fails (bad element, missing separator, missing close, end of input) including nested arrays",
  "One test covers one array length and one failure position per format.",
  ["src/serde_bin.rs", "src/serde_json.rs", "src/serde_ron.rs"],
  [("MaybeUninit array decoding with partial-drop loop", "[T; N] impls in src/serde_bin.rs, src/serde_json.rs, src/serde_ron.rs")],
  (), ["DeBin::de_bin", "DeJson::de_json", "DeRon::de_ron"])
p("C19", "Decode errors point at the place in the input",
  "When text decoding fails, the reported (zero-based) line is the number of newlines read before the error and the column is the number of characters read since the last newline, so inserting blank lines or leading text before an unchanged error shifts the report by exactly that much, and the position never lies beyond the end of the input nor before the text that is still valid. The message shown ends with the same line and column, counted from one. When binary decoding fails, the reported offset lies within the bytes examined and shifts by exactly n when the same data is decoded at an offset n further on, and the message names it.",
  ["inputs"], "all failing inputs of all formats times all position-shifting prefixes",
  "No test varies the position of an error systematically.",
  ["src/serde_json.rs", "src/serde_ron.rs", "src/toml.rs", "src/serde_bin.rs", "derive/src/serde_bin.rs"],
  [("line/col counters", "next() in src/serde_json.rs, src/serde_ron.rs, src/toml.rs"), ("DeBinErr.o", "src/serde_bin.rs")],
  [("line, col", "position of the last character read", "DeJsonState, DeRonState, TomlParser")], ["DeJsonErr", "DeRonErr", "TomlErr", "DeBinErr"])
p("C20", "Behaviour is the same in every feature configuration",
  "Every combination of the crate features (std on or off, any non-empty subset of binary/json/ron/toml) builds, and for the types available in it each format serializes every value to the same bytes or text and decodes every input to the same value or the same error position as with all features enabled.",
  ["configurations", "inputs"], "feature subsets times generated values and documents, compared across builds",
  "The tests run in two configurations only and never compare outputs between them.",
  ["src/lib.rs", "Cargo.toml", "derive/src/lib.rs", "derive/src/shared.rs"], [("cfg(feature) gates", "src/lib.rs, src/serde_*.rs, derive/src/*.rs")],
  (), ["crate features binary, json, ron, toml, std"])
p("C21", "Durations and times are exact; out-of-range ones are rejected",
  "Every Duration (0 to u64::MAX seconds plus 999,999,999 ns) and every SystemTime from the epoch on survives each format exactly, and a SystemTime before the epoch decodes as the epoch. Members or parts may come in either order in text, nanos may be omitted when zero, and any input whose nanoseconds exceed 1,000,000,000 or whose total is not representable, or that lacks secs, repeats a member or has another member, is an error rather than a panic or a wrong time.",
  ["inputs"], "all second/nanosecond pairs concentrated at the carry, epoch and overflow boundaries, in the three formats, valid and invalid",
  "The tests check a few durations, never the overflow and carry boundaries.",
  ["src/serde_bin.rs", "src/serde_json.rs", "src/serde_ron.rs"], [("Duration / SystemTime impls", "src/serde_bin.rs, src/serde_json.rs, src/serde_ron.rs")],
  (), ["Duration", "SystemTime"])
p("C22", "Serialization appends and decoding composes",
  "ser_bin, ser_json and ser_ron append to the given output exactly what the one-shot serialize functions return for the same value, leave what is already there untouched, do not depend on the indent argument and give the same result every time. Box<T>, slices and arrays, str and String, and the like are encoded like the value they stand for; and decoding with one decoder state value after value (JSON/RON values placed one after another, with whatever token separates them left for the caller) reads each value exactly as it would be read alone.",
  ["inputs", "histories"], "all sequences of values pushed through one output or one decoder state",
  "The tests use the one-shot functions almost exclusively.",
  ["src/serde_bin.rs", "src/serde_json.rs", "src/serde_ron.rs"], [("SerJsonState.out / SerRonState.out / Vec<u8> output", "src"), ("DeJsonState / DeRonState token lookahead", "src")],
  [("tok, cur, strbuf, numbuf, identbuf", "decoder lookahead carried from value to value", "DeJsonState, DeRonState")], ["ser_bin", "ser_json", "ser_ron", "de_json", "de_ron"])
p("C23", "Floats in text are exact and correctly rounded",
  "Every finite f32 and f64 is written to JSON and RON in a form that reads back bit for bit (including -0.0, subnormals and extremes) and, in JSON, is a standard JSON number. Every decimal literal read into f32 or f64 gives the correctly rounded value of that literal for that type, in every spelling (sign, fraction, exponent, integer of any size).",
  ["inputs"], "all f32 bit patterns (exhaustively in the thorough tier), f64 bit patterns and decimal literals, concentrated near rounding midpoints and range ends",
  "The tests use a dozen ordinary numbers.",
  ["src/serde_json.rs", "src/serde_ron.rs"], [("format!(\"{:?}\") writer and number lexing", "impl_ser_de_json_float, impl_ser_de_ron_float, next_tok")],
  (), ["SerJson/DeJson/SerRon/DeRon for f32 and f64"])
p("C24", "Every Unicode character survives JSON and RON strings",
  "Every sequence of Unicode scalar values, including NUL, controls, quotes, backslashes, non-characters and astral characters, survives a round trip through JSON and RON strings (as value, map key or member of a container) unchanged, and JSON output escapes every character the standard requires. Every \\uXXXX escape or surrogate pair decodes to the scalar it denotes, and lone or reversed surrogates and non-hex digits are errors.",
  ["inputs"], "all 1,112,064 scalar values (exhaustively), all 65,536 \\u escapes (exhaustively), surrogate pairs and random mixtures",
  "The tests use a few escapes and one surrogate pair.",
  ["src/serde_json.rs", "src/serde_ron.rs"], [("impl_ser_json_string", "src/serde_json.rs"), ("SerRon for String", "src/serde_ron.rs"), ("hex_unescape_char", "src/serde_json.rs, src/serde_ron.rs")],
  (), ["String, str in JSON and RON"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
