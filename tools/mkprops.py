#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand; output committed)."""
import json, os
R="src/reader.rs"; W="src/writer.rs"; S="src/state.rs"; V="src/validate.rs"; P="src/prim.rs"; D="src/decode.rs"; E="src/encode.rs"
C="src/context.rs"; H="src/lowlevel/header.rs"; L="src/lowlevel/lead.rs"; T="src/tagged.rs"
TS="src/types/scalar.rs"; TM="src/types/streamable.rs"; TC="src/types/structure.rs"; TF="src/types/float.rs"; TY="src/types/mod.rs"; LIB="src/lib.rs"
DP="cbored-derive/src/product.rs"; DS="cbored-derive/src/sum.rs"; DA="cbored-derive/src/attr.rs"; DC="cbored-derive/src/common.rs"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["public API return values"],hook_needed=hook)))

p("C01","Reading an item and writing it back reproduces its exact bytes",
 "For every well-formed CBOR item whose text is valid UTF-8, reading it (as generic data or through the typed accessor of its kind, as borrowed or as owned data) and writing the result produces exactly the bytes that were consumed. This includes non-minimal header widths, definite versus indefinite lengths, chunk boundaries, float bit patterns (NaN payloads included) and one- or two-byte simple values.",
 ["inputs"],"every well-formed CBOR item, every header-width and chunking choice, at every nesting depth",
 "Existing tests read a handful of fixed byte strings and never re-encode what they read; the guarantee is over all encodings of all values.",
 [R,W,H,L,TM,TC,TS,TF],[("header form kept in every value",H),("chunk list kept",TM),("length encoding kept",TC),("writer emits stored header form",W)])
p("C02","The validator accepts exactly the well-formed items and finds their boundary",
 "The validator succeeds at a position exactly when a complete well-formed CBOR item starts there, and then returns exactly that item's bytes and length; called repeatedly, until it first fails, it walks a concatenation of items one by one. Not well-formed are: reserved header values, indefinite length on kinds that have none, a break anywhere but as the end of an indefinite item (in particular after an odd number of entries in an indefinite map or in place of a tag's content), indefinite strings holding anything but definite chunks of their own kind, and truncated input. Text content and two-byte simple values are not restricted further.",
 ["inputs"],"every byte string",
 "Seven fixed inputs are validated today; none is an indefinite string or map and only three are malformed.",
 [V,S,C,L,H],[("structural state machine",S),("lead byte table",L),("validator loop",V)])
p("C03","Elements the reader hands out are single complete items that tile the input",
 "Every array element, map key, map value and tag content handed out by the reader is exactly one complete well-formed item, in document order, and header, elements and closing break together tile the container's bytes without gap or overlap. A container with a missing, superfluous or malformed element at any depth is never returned successfully.",
 ["inputs"],"every byte string starting with an array, map or tag header, every nesting",
 "One test walks one fixed map/array; slicing must be right for every nested combination of definite and indefinite containers, strings and tags.",
 [R,S,C,P],[("one-item slicing",R),("state machine",S),("unchecked slice construction",C)])
p("C04","No input makes reading, validating or decoding panic, crash or hang",
 "For every byte string - empty, truncated, malformed, with huge declared lengths or arbitrarily deep nesting - every reading, validating and decoding entry point terminates and returns a value or an error. It never panics, overflows the stack or an integer, or loops.",
 ["inputs"],"every byte string fed to every reader accessor, the validator, every built-in decodable type and the tagged types",
 "Tests feed fourteen short inputs; hostile lengths, empty input and deep nesting are not among them.",
 [R,V,C,S,D,T,P],[("bounds-checked peek/consume",C),("iterative state machine",S),("error returns",D)],["process status, panics"])
p("C05","Reading costs memory and work linear in input size, whatever lengths it claims",
 "While reading, validating or decoding any byte string, the memory allocated is bounded by a constant multiple of the number of bytes supplied, independent of the lengths declared inside it. The work to read or validate one item grows at most linearly with its size for every shape: wide, deep, chunked, tagged or mixed.",
 ["inputs"],"every byte string, every declared length, every nesting shape",
 "No test measures resources; a header of nine bytes can declare 2^64-1 elements.",
 [R,V,S,D,TC,TM],[("no preallocation from declared length",R),("capacity taken from elements already read",D),("stack of open containers on the heap",S)],["allocator", "executed instructions"])
p("C06","No input or call sequence causes undefined behaviour or an invalid string",
 "No use of the safe public interface, on any input, causes undefined behaviour: no out-of-bounds, dangling, misaligned or uninitialised access, no leak, no data race when values are shared between threads. Every text handed out is valid UTF-8.",
 ["inputs","histories","schedules"],"every byte string and every sequence of safe API calls (views, conversions, casts between slices and typed slices)",
 "Tests never run under a checker that can observe undefined behaviour, and do not touch most of the unsafe casts.",
 [C,P,R,TM],[("unsafe view casts",P),("unsafe slice construction",C),("UTF-8 validation",R)],["Miri and AddressSanitizer reports"])
p("C07","Typed reads succeed exactly on their own type and return the encoded value",
 "A typed accessor or peek succeeds exactly when the next item is of the requested kind and then returns the value encoded there; each constant accessor accepts only its own constant(s). On a different kind it reports an error naming the kind found (and the one expected), and consumes nothing, so that a following correct read succeeds; the same holds for unreadable headers and for a misplaced break.",
 ["inputs"],"every pair of accessor and next item, including break, reserved headers and end of input",
 "One test tries one wrong accessor on one input; there are fourteen accessors and over 240 header forms.",
 [R,L,H,TY],[("type match before advancing",R),("lead byte to type table",TY)])
p("C08","The reader's position is exact, monotone and consistent",
 "After any sequence of reads, consumed plus remaining bytes equals the input length, the position never moves backwards or past the end, and a successful read advances it by exactly the item's encoded size, so items laid end to end are read one after another. The finished test is true exactly when nothing remains, and the not-finished error reports the actual position, remaining count and next byte.",
 ["inputs","histories"],"every byte string and every sequence of reader operations, successful or failing",
 "Tests check only that a few readers are finished at the end.",
 [R,C],[("index bookkeeping",C),("advance after match",R)])
p("C09","Truncated input always reports missing data with the exact shortfall",
 "Every strict prefix of a well-formed item (with valid text), handed to the validator or to the reader operation for that item, fails with the missing-data error and no other. The error states the part being read (header, length or content), the number of bytes it needs and the number available there, both exact. Conversely, given a complete item, no reader operation, validator call or decode of a built-in type (native, vector, tagged) that takes one item reports missing data, whatever else it refuses.",
 ["inputs"],"every well-formed item, every cut position, generic and typed reads, the validator, and built-in decoding",
 "Three fixed truncations are tested on the validator, none on the reader.",
 [C,R,V],[("peek reports shortfall",C),("error conversion",R)])
p("C10","Canonical constructors give the shortest form and the canonicity test agrees",
 "Every integer, length, tag number and simple value built from a native value is written in the shortest CBOR header form that holds it, and is then written successfully for the whole value range. The canonicity query on any value read or built is true exactly when its encoding is the shortest one for that value.",
 ["inputs"],"every u64 and u8 value, every header form",
 "Tests use the constants 10 and 124 only.",
 [H,TS,TC,TM,W,E],[("canonical thresholds",H),("header writer",W)])
p("C11","Numbers read mean what their encoding denotes",
 "Integers read return the encoded value whatever header width was used: positives as the value, negatives as -1-n with conversion to i64 succeeding exactly when the result fits. Half, single and double floats convert to the native floats of the same IEEE-754 value, exactly where representable (sign, zeros, subnormals, infinities and NaN-ness kept), rounding to nearest only from double to single.",
 ["inputs"],"every integer header form and value, all 65536 half floats, every single and double",
 "No test converts a float or a negative integer.",
 [H,TS,TF,R],[("value accessors",TS),("half-float conversion",TF),("big-endian assembly",R)])
p("C12","Native values survive encode and decode, and decoding never coerces",
 "Every bool, u8-u64, text, byte string, fixed-size byte array, scalar and vector of these encodes to the documented CBOR kind and decodes back equal; any other encoding of the same value (wider headers, chunked strings, indefinite arrays) decodes to the same value. Integers out of range, byte strings of the wrong length, wrong kinds and any wrong element are rejected with an error, never truncated, padded or skipped; a range or length that an error reports is the true one.",
 ["inputs"],"every native value, every CBOR encoding of it, every non-conforming item",
 "Tests decode two u64 and one bool.",
 [D,E,R,W],[("range assertion",D),("length check",D),("encode impls",E)])
p("C13","The writer emits exactly the requested items, in order, after existing content",
 "For every sequence of writer calls the output is the supplied initial buffer followed by the CBOR encoding of each call in order; array, map and tag builders put exactly the header requested before and, for indefinite ones, exactly one break after what the closure wrote. Array builders and vector encoding produce a header whose count equals the number of elements, so the output reads back to the same elements.",
 ["inputs","histories"],"every sequence and nesting of writer calls and every length encoding",
 "Tests write three two-item sequences.",
 [W,E,TC],[("append-only buffer",W),("builders",W),("array builder",TC)])
p("C14","Typed exact data holds exactly one valid value and keeps its bytes",
 "Exact typed data (owned or borrowed) for a type can be obtained by reading or validating only from bytes that are exactly one encoding of that type with nothing left over; decoding it later never fails and gives the same value. Through every conversion (owned, borrowed, untyped, cloned, written out) the original bytes are unchanged.",
 ["inputs","histories"],"every byte string, every decodable type, every chain of conversions",
 "No test constructs typed exact data.",
 [P,R,D,E],[("validate then cast",P),("exact reads",R)])
p("C15","Tagged extension types accept exactly their tag and content and stay exact",
 "Date/time, positive and negative bignum, encoded-CBOR and rational values decode exactly from items with their tag number (in any header width) around the required content - for a rational an array of exactly two with an integer or positive/negative bignum numerator and a positive or positive-bignum denominator - and from nothing else. The decoded value exposes the encoded content and writes back to the identical bytes, and a wrong tag consumes nothing.",
 ["inputs"],"every tag number, width and content; every combination of numerator and denominator kinds",
 "No test uses the tagged module.",
 [T,R,W],[("tag match",T),("content read with finish check",TC)])
p("C16","Derived records are written in their documented layout and read back",
 "For every record type using the derive (array, last-optional array, flat, integer-keyed map with start offset and skipped keys; optionally tagged; named or positional fields), writing a value gives exactly the documented canonical layout with each field at its place, optional fields omitted when absent. Reading that back gives an equal value, as does any other CBOR encoding of the same items and, for maps, any key order.",
 ["programs","inputs"],"every supported record definition, every value, every equivalent encoding",
 "The example crate derives three types and its main does not encode or decode anything.",
 [DP,DA,DC],[("struct serializer generation",DP),("struct deserializer generation",DP)],["generated impls through encode/decode"])
p("C17","Derived enums are written in their documented layout and read back",
 "For every enum using the derive (variant number in an array, plain integer, or discriminated by CBOR kind), writing a variant gives exactly the documented canonical layout, variant numbers counting up from the configured start and skipping the configured numbers. Reading that back, or any other CBOR encoding of the same items, gives an equal value.",
 ["programs","inputs"],"every supported enum definition, every variant and value, every equivalent encoding",
 "No existing test encodes or decodes a derived enum.",
 [DS,DA,DC],[("variant numbering",DS),("enum serializer/deserializer generation",DS)],["generated impls through encode/decode"])
p("C18","Derived types reject every non-conforming input with an error",
 "Decoding a derived type fails with an error (never a panic, never a silently defaulted, dropped or reassigned field) on every input that is not an encoding of it: wrong kind, missing, additional or wrong elements, missing mandatory, unknown or duplicate map keys of any magnitude, unknown variant numbers, wrong or absent tag, trailing data. It succeeds on every input that is.",
 ["programs","inputs"],"every supported derived type and every byte string",
 "No existing test feeds a derived type anything.",
 [DP,DS,TC,R],[("count checks",DP),("mandatory/duplicate/unknown key checks",DP),("variant dispatch",DS)],["generated impls through decode"])
p("C19","The structural state machine accepts exactly the CBOR grammar",
 "Fed any sequence of events (simple, text, bytes, array, map, tag, break; definite or indefinite), the structural state machine accepts each event, up to the first one rejected, exactly when the sequence so far can be extended to well-formed CBOR items. It then reports a finished position exactly when the events so far are a whole number of complete items.",
 ["histories"],"every event sequence, every declared length up to 2^64-1, every nesting",
 "Nine fixed well-formed sequences are tested; no rejected sequence is.",
 [S],[("open-container stack",S),("reduction of full containers",S)],["State API results"])
p("C20","Whole-input decoding rejects trailing data",
 "Every entry point that decodes a whole input - complete byte strings, single-item decoding, decoding of an element, of owned data, of a tag's content, and validation of data as a type - succeeds only if the decoded value uses every byte, and otherwise fails with an error that, where it counts what is left over, does so exactly. With nothing left over its result is the same as decoding from a reader.",
 ["inputs"],"every decodable type (also ones consuming nothing or several items), every input, every tail",
 "No test has trailing data.",
 [LIB,R,P,TC],[("finished check after decode",P),("decode_from_bytes",LIB)])
p("C21","Text is accepted exactly when every chunk is valid UTF-8",
 "Reading or decoding text succeeds exactly when the definite string, or each chunk of an indefinite one on its own, is valid UTF-8, and yields exactly those characters in order. Invalid text is reported as a text error, never repaired, truncated or returned.",
 ["inputs"],"every byte content and every chunking of it, including characters split across chunks",
 "No test reads invalid or chunked text through the reader.",
 [R,TM,D],[("per-chunk UTF-8 check",R)])
p("C22","Owned and borrowed forms are equivalent, and equality means same representation",
 "Converting any value between borrowed and owned form and back changes nothing observable: equality, accessors and written bytes all agree, and owned data is independent of the buffer it came from. Two values compare equal exactly when their encodings are the same bytes, so different representations of one number or string are different values.",
 ["inputs","histories"],"every pair of items and every chain of conversions",
 "No test converts to owned data or compares two representations.",
 [TY,TM,TC,TS,P],[("owned/borrow conversions",TM),("derived equality over stored header forms",TS)])
p("C23","Accessors report exactly the encoded content",
 "Length, raw header value, length encoding, indexing, iteration, key and value views, chunk lists, concatenated content and element-wise conversion of byte strings, texts, arrays, maps and tags report exactly what the bytes encode, in order. The borrowed and owned variants report the same.",
 ["inputs"],"every item and every accessor",
 "Tests check len and index on two fixed containers.",
 [TM,TC,TY,P],[("container accessors",TC),("string accessors",TM)])
p("C24","Decode errors locate the failing element from outermost to innermost",
 "When decoding fails inside vectors or derived records and variants, the error's path names the enclosing element indices, field names, variant and type names in order from outermost to innermost, and the underlying cause is preserved. Contexts added to an error appear in the order they were added, innermost first in the list and outermost first in the printed path.",
 ["inputs","histories","programs"],"every nesting of vectors and derived types, every failing position, every sequence of added contexts",
 "No test inspects an error path.",
 [D,DP,DS],[("context stack",D),("index context in vector decoding",D)])
p("C25","Results depend only on the input bytes",
 "The outcome of reading, validating, decoding and writing is a function of the bytes and values given: it is the same in debug and release builds, with and without the derive feature, on 32-bit and 64-bit and on little- and big-endian platforms, on any thread and concurrently, at any buffer address or alignment, whatever surrounds the buffer and whatever was done before.",
 ["inputs","configurations","schedules","histories"],"every input, build configuration, platform, thread, address and preceding history",
 "Tests run in a single debug configuration.",
 [R,V,W,C,S,LIB],[("no global or interior mutable state",LIB),("slice-relative indexing",C)])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in props))
print(len(props))
