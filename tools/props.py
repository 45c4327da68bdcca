#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
Run:  python3 tools/props.py   (rewrites both files)"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, technique=None, note=None,
         level="model_checking", observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, level=level,
                  observe=observe or [], state=state or []))
def M(name, where): return {"name": name, "where": where}

PARSE = ["unmarshal.go", "jsonvalue.go"]
MARSH = ["marshal.go", "option.go", "conv.go", "sort.go", "internal/buffer/buffer_impl.go"]
MUT = ["set.go", "insert_append_delete.go"]

prop("C01", "Every well-formed JSON text parses to exactly the value it denotes",
 "For every well-formed JSON text, each parsing entry point succeeds and yields the same value, with the same types, array order and length, key set (the last duplicate of a key wins), decoded strings and number texts as the text denotes. Insignificant white space, nesting depth, number of members and length of the text never change the result.",
 ["inputs"], "all JSON texts: every token sequence, nesting shape, white-space placement and member count",
 "The tests parse a few dozen hand-written documents; boundaries such as a member count passing an internal capacity, an exhausted pre-allocation, an empty key or an unusual token succession are only reached by luck.",
 PARSE + ["jsonvalue_internal.go"], [M("in-place recursive descent parser", "unmarshal.go: unmarshalWithIter and the object/array loops"), M("value pre-allocation pool", "jsonvalue_internal.go: newPool/get/release")],
 "bounded-exhaustive enumeration of token words and shape families, replayed against a reference parser",
 "All words up to the stated length over a 17-token alphabet plus exhaustive shape families (member counts, depth, blanks, lengths around the buffer and pool limits); trusts the hand-written reference parser, which is itself cross-checked against encoding/json on every word.")

prop("C02", "Malformed text is rejected with an error and a harmless value",
 "Every text that is not well-formed JSON (truncated, trailing data, misplaced or missing brackets, colons, keys or values, misspelled literals, malformed numbers, strings, escapes or UTF-8) makes each parsing entry point return a non-nil error together with a non-nil value of the not-exist type, and never panics or reads outside the text. A value that is the target of a failed decode keeps its previous content.",
 ["inputs"], "all byte strings that are not well-formed JSON",
 "The tests sample a few dozen malformed documents; whether some unusual malformed text slips through, crashes, or half-updates its target depends on every combination of parser state and next byte.",
 PARSE + ["marshaler_unmarshaler.go"], [M("error returns of every parser state", "unmarshal.go"), M("assignment only after success", "marshaler_unmarshaler.go: UnmarshalJSON/UnmarshalBinary")],
 "bounded-exhaustive enumeration of byte/token words and of every one-token edit and truncation of valid words",
 "All words up to the stated lengths, every truncation, one-byte deletion, insertion and substitution of a corpus of generated documents. Deliberate leniencies pinned by the existing tests are listed as known findings by class.")

prop("C03", "Numbers keep their exact text, value and classification, or are rejected",
 "A number in the text keeps its literal text in every output, an integer from -2^63 to 2^64-1 is returned exactly by the matching integer accessors, any other number equals the nearest double, and the integer/float, sign (of non-zero numbers) and above-int64 predicates agree with the literal. Integers outside that range, literals overflowing a double, and literals not matching the JSON number grammar are rejected with an error instead of being altered.",
 ["inputs"], "all number literals, wherever they stand in a document",
 "Tests check a dozen literals; carries, digit-count limits, sign and exponent combinations around 2^53, 2^63, 2^64 and the double limits are not enumerated.",
 ["unmarshal.go", "jsonvalue.go"], [M("number state machine", "unmarshal.go: parseNumber"), M("range checks", "unmarshal.go: parsePositiveIntResult/parseNegativeIntResult/parseFloatResult")],
 "bounded-exhaustive enumeration of literals over the number alphabet plus exhaustive neighbourhoods of every numeric limit",
 "All strings up to the stated length over the number alphabet in four contexts, plus all values within a window around each power-of-two/ten limit in every spelling; oracle: JSON grammar, math/big and strconv.")

prop("C04", "Every string spelling decodes to exactly the characters it denotes",
 "For every Unicode scalar value and every way of spelling it in JSON (raw UTF-8, \\u escapes with any hex case, surrogate pairs, two-character escapes), in a string value or a key, alone or next to any other spelling, decoding yields exactly that character and leaves its neighbours unchanged. Bad hex digits, unpaired surrogates, unknown escapes, and invalid UTF-8 bytes are rejected.",
 ["inputs"], "all strings: all code points, spellings, neighbours, positions",
 "Tests decode a handful of characters; 1.1 million code points, four encoded lengths and the in-place compaction after an escape are not swept.",
 ["unmarshal.go"], [M("in-place unescaping with read and write cursors", "unmarshal.go: parseStrFromBytesForwardWithQuote, handleEscape*"), M("UTF-8/UTF-16 conversion", "unmarshal.go: assignASCIICodedRune, handleEscapeUnicodeStartWithEnd")],
 "exhaustive sweep of all code points and spellings, and of all short words over a string-fragment alphabet",
 "Complete over all 0x110000 code points singly (all spellings), all 65536 x selected second escapes for surrogate handling, all 1-4 byte UTF-8 lead/continuation class combinations, and all words of fragments up to the stated length; oracle: unicode/utf8 and utf16.")

prop("C05", "Marshalled output is always valid JSON that decodes to an equal value",
 "Whatever sequence of parsing, construction and mutation produced a value free of NaN and infinities, and whatever combination of marshalling options is used, marshalling without error yields well-formed JSON that any JSON decoder decodes to the same content as the value. When marshalling fails it returns an error and no data, never malformed text.",
 ["inputs", "configurations"], "all values x all combinations of marshalling options",
 "Tests look at one option at a time on one or two documents; interactions such as null omission, indentation and key ordering at nested levels are combinatorial.",
 MARSH, [M("recursive writer with per-call options", "marshal.go: marshalToBuffer, writeObjectChildren, marshalArray"), M("option merge", "option.go: combineOptionsFrom")],
 "exhaustive product of bounded JSON trees and marshalling-option combinations, decoded by two independent decoders",
 "All trees up to the stated node count over a leaf alphabet times all 192 option sets; decoders: the reference parser and encoding/json.")

prop("C06", "Escaping options change the spelling of exactly their own characters",
 "For every character in a key or string value, marshalled text spells it as the options say: non-ASCII as upper-case \\u escapes (surrogate pairs above U+FFFF) unless UTF-8 output is chosen, in which case only U+2028 and U+2029 stay escaped; '/' and the HTML characters '<', '>', '&' escaped unless switched off; quotes, backslash, control characters and DEL always escaped. Each option affects no other character, and the output always decodes back to the original string.",
 ["inputs", "configurations"], "all code points, in keys and values, x all escaping-option combinations",
 "Tests check a few characters per option; the escape table has 128 ASCII entries times eight option combinations plus the whole Unicode range.",
 ["option.go", "conv.go", "marshal.go"], [M("escape table built from the options", "option.go: parseEscapingFuncs"), M("UTF-16 escaping", "conv.go: escapeGreaterUnicodeToBuffByUTF16")],
 "exhaustive sweep of all code points x all escaping-option combinations against a spelled-out oracle",
 "Complete over all code points, 8 option combinations and 2 positions, plus all pairs over class representatives.")

prop("C07", "Key-ordering options give one deterministic order at every level",
 "With dictionary ordering, an explicit key sequence, or a caller's less function that is a strict order, marshalled objects at every nesting level list each key exactly once in the prescribed order (ascending bytes; listed keys first in list order and the others ascending; the less function's order). The output is byte-identical however the object was built and however the hash map happens to be iterated.",
 ["inputs", "configurations", "schedules"], "all key sets, insertion orders and hash-map iteration orders x ordering options",
 "A test sees the one iteration order its run happens to get; ordering must hold for all of them and for all key sets, nested or not.",
 ["sort.go", "marshal.go", "option.go"], [M("sort before writing", "sort.go: marshalObjectWithLessFunc, marshalObjectWithStringSlice")],
 "exhaustive enumeration of key sets x insertion permutations x map-iteration permutations (iteration order owned by an instrumented build)",
 "All key subsets/permutations of the alphabet up to the stated size; map iteration order replaced by an enumerated permutation through a build overlay of the current sources; sort inputs beyond 12 keys cover the library's switch of sort algorithm.")

prop("C08", "Set, Append, Insert and Delete follow their documented effect, atomically",
 "After any history of set, append, insert and delete calls, the document equals the one obtained by applying the documented effect of each call in order, including automatic creation of missing parents, negative array positions and appending at position length. Each call returns the value it placed; a call that cannot be carried out returns an error and a not-exist value and leaves the whole document unchanged.",
 ["histories"], "all histories of mutating calls with all path shapes, from every starting document",
 "Tests run fixed scripts of a few calls; array shifting, auto-creation, and error paths interact across calls and starting states.",
 MUT, [M("path walk creating parents only after the child succeeded", "set.go: At/atObject/atArray"), M("position arithmetic", "set.go: posAtIndexFor*"), M("array shifting", "insert_append_delete.go: insertToArr, deleteInArr")],
 "explicit-state search of operation histories on the real values against a reference document model",
 "Breadth-first over all operation sequences to the stated depth with complete comparison of return value, error and whole document after every step; states merged only when model state and hidden-state tags agree.",
 observe=["returned value and error", "whole document through getters and marshalling"])

prop("C09", "Paths address the same element in every accepted spelling",
 "Reading or mutating by a path reaches exactly the element the path denotes: keys match exactly, index i or i-length (negative) selects element i, and every integer or string kind, defined type, slice or array spelling of the same path behaves identically. Missing keys give the not-found error, positions outside the array the out-of-range error, type mismatches and malformed parameters some error, always with a not-exist value and no panic.",
 ["inputs"], "all documents x all paths x all parameter spellings",
 "Tests use string keys and int positions on shallow documents; the 13 parameter kinds times list spellings times boundary positions are not crossed.",
 ["get.go", "conv.go", "set.go", "insert_append_delete.go"], [M("parameter normalisation", "conv.go: anyToInt, anyToString, isSliceAndExtract*"), M("index arithmetic", "set.go: posAtIndexForRead")],
 "exhaustive product of small documents, paths up to depth 3 and parameter spellings against a reference path resolver",
 "Complete over the stated document, path-element and spelling alphabets for the read, delete, set, append and insert families.")

prop("C10", "Caseless access finds a key iff some current key matches ignoring case",
 "After any history of sets and deletes (exact or caseless), a caseless lookup returns the exactly spelled key when present, otherwise the value of some key currently present whose lower-case form equals that of the request, and otherwise not-found. A caseless delete removes exactly one such key, and using caseless access never changes what exact access, length, iteration or marshalling report.",
 ["histories"], "all interleavings of exact/caseless reads, sets and deletes over keys differing in case, at every nesting level",
 "The case index is built lazily on first use and then maintained incrementally; whether it goes stale depends on the order of operations, which tests cover in two or three fixed scripts.",
 ["get.go", "insert_append_delete.go", "jsonvalue.go"], [M("lazy case index and its maintenance", "jsonvalue.go: addCaselessKey, delCaselessKey; get.go: initCaselessStorage")],
 "explicit-state search of operation histories against a reference map, hidden index state tracked by tags",
 "All operation sequences to the stated depth over 3-4 spellings incl. non-ASCII case pairs, nested documents, copies and re-parses; ties checked as any-of.",
 state=[{"name": "lazy lower-case key index", "meaning": "set of actual keys per lower-case key", "where": "jsonvalue.go: children.lowerCaseKeys"}])

prop("C11", "Set-sequence order is the order of each key's latest set, whatever the history",
 "Iteration and marshalling in set sequence list the keys of every object in the order in which each key was last set or parsed, keys deleted and set again moving to the end. Copies made by import keep that order and later sets on the copy or the original append after all existing keys.",
 ["histories"], "all histories of set, overwrite, delete, parse and copy operations",
 "The order depends on counters updated by every mutation path; tests check one straight insertion script.",
 ["set.go", "sort.go", "iteration.go", "jsonvalue.go"], [M("per-object insertion counter", "set.go: setToObjectChildren"), M("sort by counter", "sort.go: newSortStringSliceVBySetSeq; iteration.go: RangeObjectsBySetSequence")],
 "explicit-state search of operation histories against an ordered-map model",
 "All histories to the stated depth over the alphabet, sizes up to 16 keys in shape families; both iteration and marshalling observed after every step.")

prop("C12", "Values never share mutable memory with inputs, outputs or copies",
 "Parsing, importing and marshalling neither modify nor keep a window onto the caller's data: changing the input bytes, the imported Go value, a returned byte slice, a returned iteration snapshot or an imported copy afterwards never changes any value or earlier output, and vice versa. Only the explicitly no-copy parser may use its input as a buffer, and setting a value into a document shares that value itself.",
 ["histories"], "all sequences of (produce, tamper, observe) over every pair of producer and observer",
 "Aliasing only shows when one side is changed after the other was produced; tests hardly ever tamper with a buffer after use.",
 ["jsonvalue.go", "marshal.go", "import_export.go", "iteration.go", "internal/unsafe/unsafe.go"], [M("defensive copy before in-place parsing", "jsonvalue.go: Unmarshal, UnmarshalString"), M("deep copy on import", "jsonvalue.go: deepCopy"), M("fresh buffer per marshal", "marshal.go: Marshal")],
 "exhaustive enumeration of produce/tamper/observe histories over a document family, with frozen-snapshot comparison",
 "All histories up to the stated length over 20+ producer/tamper operations; every live object's expected snapshot is compared after every step.")

prop("C13", "Importing a Go value gives the same JSON as encoding/json",
 "For Go values built from booleans, integers, floats, strings, byte slices, non-nil slices, arrays, maps, pointers, interfaces, structs with json tags (name, '-', omitempty, string), embedded structs and json/text marshalers (of the value or, where it has none, of its pointer), importing yields the same JSON content as encoding/json marshalling the same value, struct fields in declaration order; omitempty of a marshaler is judged on the JSON it produces, and the ignore-omitempty option gives what encoding/json gives without omitempty. Values encoding/json cannot represent (complex, channels, functions, data that contains itself, non-finite floats when marshalled) give an error and a not-exist value.",
 ["inputs", "programs"], "all Go types of the stated grammar and all their values",
 "Reflection code branches on type structure, tags and emptiness; the tests cover a few dozen hand-picked structs, not the product.",
 ["import_export.go", "new.go"], [M("reflection dispatch", "import_export.go: validateValAndReturnParser"), M("tag handling", "import_export.go: readFieldTag, parseStructFieldValue")],
 "exhaustive enumeration of a type grammar (built by reflection) x boundary values x tags, compared with encoding/json",
 "All types of depth 3 (thorough 4) over 5 scalars; 150 values of every kind in every container and struct shape under 16 tags; all structs of up to 3 (4) fields out of 27 embedded or plain ones, and 35 hand-written embeddings; all chains of 3 (4) nodes of 8 kinds that lead back to one of them, and deep or shared data that does not. Nil slices (imported as [] by design, pinned by the tests) are outside the statement.")

prop("C14", "Export and the standard marshaler interfaces are faithful in both directions",
 "Exporting a value into a Go variable gives exactly what encoding/json gives for the marshalled text, including errors. A value embedded in Go data round-trips through encoding/json and the binary marshaler interface to an equal value, and its JSON appears in the enclosing document unchanged in content; a decode that fails leaves the target as it was.",
 ["inputs"], "all JSON values x export targets x enclosing Go types",
 "The interfaces are tested on two or three documents each.",
 ["import_export.go", "marshaler_unmarshaler.go"], [M("marshal then decode", "import_export.go: Export"), M("interface methods", "marshaler_unmarshaler.go")],
 "exhaustive product of bounded JSON trees and target types, differential against encoding/json",
 "17,000 trees times 54 destinations (fresh, used, invalid) and 13 enclosing shapes, direct method calls, gob, numbers around every power of two and ten.")

prop("C15", "Equal is exactly content equality",
 "Two values are equal if and only if they have the same type and content: strings and booleans identical, numbers equal as decimals however they are spelled, arrays element by element in order, objects by key regardless of order. It is reflexive, symmetric and transitive on existing values, independent of how either side was built, and false whenever either side does not exist.",
 ["inputs"], "all pairs (and triples) of values and of constructions of each value",
 "Tests compare a dozen pairs; an asymmetric or partial comparison of nested members shows only for specific pairs.",
 ["compare.go"], [M("recursive comparison", "compare.go: Equal, objectEqual, arrayEqual, numberEqual")],
 "exhaustive all-pairs comparison of a bounded value family against a structural oracle",
 "All ordered pairs over all bounded trees and number spellings, several constructions of each; oracle: structural equality with math/big rationals.")

prop("C16", "Numeric comparisons are the exact order of the numbers",
 "For any two numbers, greater, greater-or-equal, less and less-or-equal report the exact mathematical order of the two literals, whatever their spelling, sign, size or precision, with infinities at the ends and every comparison false when NaN is involved. If either side is not a number all four are false.",
 ["inputs"], "all pairs of numbers and non-numbers",
 "Tests compare a few pairs; equal values in different spellings, values one unit apart beyond 2^53, and sign/exponent mixes are not enumerated.",
 ["compare.go"], [M("decimal comparison", "compare.go: greaterThan, greaterOrEqualThan")],
 "exhaustive all-pairs enumeration over a literal alphabet against math/big rationals",
 "All ordered pairs of some thousand literals around every limit plus non-numbers; oracle math/big.Rat.")

prop("C17", "Concurrent reads and independent parses and marshals never interfere",
 "Any number of goroutines may read the same value (get, exact iteration, compare, marshal with any options, export, import as a source) and may parse, build and marshal separate values at the same time: no data race, panic or deadlock occurs and every call returns what it returns when run alone.",
 ["schedules"], "all interleavings of concurrent read-only and independent calls",
 "The test suite is sequential; a hidden cache or shared scratch buffer would only show under particular interleavings.",
 ["marshal.go", "get.go", "iteration.go", "jsonvalue_internal.go", "unmarshal.go"], [M("readers do not write; per-call buffers and options", "marshal.go, option.go"), M("atomic size statistics", "jsonvalue_internal.go")],
 "systematic exploration of all thread interleavings up to a preemption bound on instrumented sources, each schedule race-checked",
 "Statement-level scheduling points inserted into the current sources by overlay; every schedule up to the stated preemption bound of each 2-3 thread harness; results compared with sequential runs, and the same schedules run under the race detector with hand-offs invisible to it.")

prop("C18", "Changing the default marshal options is atomic and goroutine-safe",
 "While some goroutines set or reset the process-wide default marshalling options and others marshal, no data race, panic or torn configuration occurs: each marshal call behaves entirely as under one of the defaults that was current during the call. Afterwards the last completed change is in force.",
 ["schedules", "configurations"], "all interleavings of option changes and marshal calls",
 "The documentation promises goroutine safety, but no test runs these calls concurrently.",
 ["option.go", "jsonvalue_internal.go"], [M("publication of an immutable option set", "option.go: SetDefaultMarshalOptions, getDefaultOptions")],
 "systematic exploration of all thread interleavings up to a preemption bound on instrumented sources, each schedule race-checked",
 "As C17, with setters and resetters; linearizability of the observed outputs checked by brute force.")

prop("C19", "Options resolve predictably and never leak between calls",
 "The effective options of a marshal call are the process-wide defaults overridden by the call's own options in order, the later of conflicting options winning; an option absent from both has its documented default. A call's options, successful or not, never affect any other call, changing a key sequence after it was handed over as a default changes nothing, and resetting the defaults restores the original behaviour.",
 ["configurations", "histories"], "all histories of set-default, reset and marshal calls with all option lists",
 "Tests mostly use one option per call from a fresh default; the state machine of defaults x per-call overrides is not explored.",
 ["option.go", "marshal.go"], [M("copy of the defaults merged with call options", "option.go: combineOptions, mergeTo methods")],
 "explicit-state search over histories of option operations against a reference option record",
 "All histories to the stated depth over 20+ option values; every marshal output compared with an independent formatter driven by the modelled options.")

prop("C20", "NaN and infinities are never emitted; they follow the chosen handling",
 "A NaN or infinity anywhere in a value makes marshalling fail with the unsupported-float error unless an option maps it, in which case it is emitted as exactly the mapped null, number (negated for negative infinity) or string. A mapping that is itself not finite is an error, and the handling of NaN and of infinity are independent of each other.",
 ["inputs", "configurations"], "all placements of non-finite numbers in documents x all handling options",
 "Tests check top-level numbers and a flat object; deeper placements and mixes of both kinds are not crossed with the options.",
 ["marshal.go", "option.go"], [M("non-finite handling", "marshal.go: marshalNaN, marshalInfP, marshalInfN"), M("error propagation from children", "marshal.go: marshalToBuffer")],
 "exhaustive product of placements, non-finite values and handling options against an expected-output oracle",
 "All placements of up to 3 special numbers in all container shapes to depth 3 times all option combinations.")

prop("C21", "Indentation changes white space only, in the standard layout",
 "With an indent option the output has exactly the layout of the standard library's indentation of the same compact text, with the given prefix and indent repeated per level, at every nesting depth and combination with other options. Empty containers stay compact, and removing insignificant white space gives back the text produced without the option when the indent strings are white space.",
 ["inputs", "configurations"], "all documents x prefix/indent strings x other options",
 "Tests compare four documents; depth bookkeeping across sibling containers is history-dependent within one call.",
 ["marshal.go", "option.go"], [M("level counter", "marshal.go: marshalObject, marshalArray, writeIndent")],
 "exhaustive product of bounded trees, indent strings and ordering options, differential against json.Indent",
 "All trees of the bounded family and depth chains to 40.")

prop("C22", "Contains decides the documented subset relation",
 "Containment of one value in another, optionally below a path, is true exactly when the documented relation holds: same type, objects by recursive containment of every key of the subset, arrays by an occurrence of the subset as a contiguous sub-array of equal elements (the empty array in any array), other types by equality. A missing path, a type mismatch, a value that cannot be converted or a nil receiver gives false, never a panic.",
 ["inputs"], "all pairs of values and paths",
 "Tests check a dozen pairs; offsets, overlapping matches and nested arrays are not enumerated.",
 ["beta/contain.go", "compare.go"], [M("recursive subset walk", "beta/contain.go: Contains, objectHasSubset, arrayHasSubset")],
 "exhaustive all-pairs enumeration over bounded trees against a brute-force oracle",
 "All ordered pairs over the bounded family and all arrays over a 2-symbol alphabet up to the stated length.")

prop("C23", "Every iteration visits each member exactly once and stops on request",
 "Each way of iterating (callbacks, snapshots, channels, set-sequence order) visits every member of an array in index order and every member of an object exactly once with its own key and value, and agrees with length and get. A callback returning false ends the iteration at once; iterating a value of another type, or with a nil callback, visits nothing.",
 ["inputs"], "all containers x iteration forms x stop positions",
 "Tests iterate two or three small containers to the end.",
 ["iteration.go"], [M("range loops", "iteration.go")],
 "exhaustive product of container shapes, iteration forms and stop positions",
 "All bounded trees and all sizes 0-70, every stop position, all six iteration forms.")

prop("C24", "Typed accessors convert as documented and never panic",
 "For every value and every typed getter, the result is the exact value for a matching type with no error, the documented conversion together with the type-mismatch error (numbers written in strings, booleans from strings and numbers), or zero with the documented error; the error-less accessors return the same value. The number predicates agree with the number's text, NaN and infinities being floats, not integers. No accessor panics on any value of any type, including not-exist values.",
 ["inputs"], "all values of all types (incl. arbitrary string contents) x all typed accessors and getters, exact and caseless",
 "Conversions depend on string contents; the tests use a few well-formed numeric strings.",
 ["get.go", "jsonvalue.go"], [M("conversion helpers", "get.go: getNumberAndErrorFromValue, getBoolAndErrorFromValue, getNumberFromNotNumberValue")],
 "bounded-exhaustive enumeration of string contents and values x every accessor against a conversion oracle",
 "All strings up to the stated length over a number/boolean alphabet, all value kinds, 16 getters x exact/caseless x direct accessor; numbers of every constructor and Go type around every power of two.")

prop("C25", "Typed and error-less shortcuts equal their general forms",
 "Every typed constructor and every typed set, append and insert shortcut produces the same document, value text and result as the general form given the same Go value, and every error-less variant (including the path-first form) has the same effect as its counterpart, silently doing nothing when that returns an error.",
 ["inputs", "histories"], "all shortcuts x boundary arguments x targets and paths (valid and invalid)",
 "There are over 150 near-identical one-line methods, each tested at most once with one value.",
 ["new.go", "set.go", "set_must.go", "insert_append_delete.go", "insert_append_delete_must.go"], [M("one-line delegations", "set.go, set_must.go, insert_append_delete.go, insert_append_delete_must.go")],
 "exhaustive product of every shortcut, boundary argument, target and path; pairwise differential",
 "All shortcut methods of the API x all boundary values of their argument type x valid and invalid targets.")

prop("C26", "Sorting an array permutes it into the order of the less function",
 "Sorting an array by a strict order leaves exactly the same element values (same objects, each once) arranged so that no element is less than its predecessor, at every length, and changes nothing else in the document. Sorting a non-array or with a nil function changes nothing.",
 ["inputs"], "all arrays x less functions",
 "Tests sort one array of ten numbers.",
 ["sort.go"], [M("sort adapter", "sort.go: sortArrayV")],
 "exhaustive enumeration of all arrays over a small alphabet and all permutations up to the stated length",
 "All arrays to length 7 over 3 keys, all permutations to length 8, structured lengths to 70 (crossing the sort algorithm's thresholds).")

prop("C27", "Omitting nulls removes exactly the null members of objects",
 "With null omission on, every object member whose value is null is absent from the output at every level, while null elements of arrays, a null document and all other members remain, in the same order and still as valid JSON. With it off nothing is omitted; the value itself is never changed by marshalling.",
 ["inputs", "configurations"], "all documents with nulls in any positions x ordering and indentation options",
 "Which neighbours of an omitted member are written depends on order; the tests omit a null in one or two fixed places.",
 ["marshal.go"], [M("skip in the member writer", "marshal.go: writeObjectChildren")],
 "exhaustive enumeration of all null placements x ordering/indent options against a reference writer",
 "All bounded trees with null leaves, all null masks of objects up to the stated width, five ordering modes, map order owned.")

prop("C28", "A parse result never depends on what was parsed before",
 "Parsing a text gives the same result in any process history: after any number and size of successful or failed earlier parses, including after internal size statistics roll over, results and errors are unchanged and earlier results are unaffected.",
 ["histories"], "all histories of parse calls of any sizes",
 "A global size predictor drives pre-allocation; tests never push it to its extremes.",
 ["jsonvalue_internal.go", "jsonvalue.go"], [M("size predictor and pool", "jsonvalue_internal.go")],
 "explicit enumeration of parse histories that drive the predictor to all its regimes, differential against a fresh process state",
 "All histories of 3 (thorough 4) parses over 14 document classes (value-dense, value-sparse, deep, failing), each in a process of its own; all pairs of classes in long cycles; each of 48 short texts 300000 (thorough 2*10^7) times in a process of its own; totals ending within bytes of 2^31 and 2^32; all results kept and compared again.",
 state=[{"name": "size predictor", "meaning": "average bytes per value", "where": "jsonvalue_internal.go: internal.predict"}])

prop("C29", "A less function sees the true parents, keys and values while marshalling",
 "Whenever marshalling consults the caller's less function, the two keys and values it is given are distinct members of one object of the document with those values, and the parent information names the path of keys and positions from the root to that object, with no parent for the root. Path elements print as their key or position, and consulting them never disturbs the output.",
 ["inputs"], "all documents x all member pairs compared",
 "Tests print the path in one nested document.",
 ["sort.go", "marshal.go"], [M("path accumulation", "sort.go: newParentInfo"), M("calls with parent info", "marshal.go: marshalArray; sort.go: marshalObjectWithLessFunc")],
 "exhaustive enumeration of bounded trees with an instrumented less function checked against the document",
 "All bounded trees with objects nested in arrays and objects; every callback invocation checked. Keys are non-empty: an empty key prints like position 0, a documented limitation of the key type.")

def main():
    claimed = sys.argv[1:] # not used
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None)),
                ensure_ascii=False) + "\n")
    ready = set(open(os.path.join(ROOT, "tools", "ready.txt")).read().split())
    man = dict(version=1, setup_cmd="bash run.sh setup", checks=[], not_applicable=[],
        notes="All checks are black box on the public API of the current /repo tree; run.sh builds them from /repo in a scratch directory.")
    for p in P:
        if p["id"] in ready:
            man["checks"].append(dict(property=p["id"], quick_cmd=f"bash run.sh check {p['id']}", thorough_cmd=f"bash run.sh check {p['id']}",
                technique="model checking: " + p["technique"], level=p["level"], level_note=p["note"]))
        else:
            man["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
    if not man["not_applicable"]: del man["not_applicable"]
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
