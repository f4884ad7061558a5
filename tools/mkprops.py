import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":None}})

p("C01","No input can crash the library",
 "For every byte string, every public parsing entry point (generic, recursive, per-type, header, content, combinator; BER and DER) returns a result or an error: it never panics, overflows the stack or overflows arithmetic. The same holds for reading, iterating, visiting, pretty-printing, converting and re-encoding whatever object the parser returned. Memory allocated while parsing stays proportional to the bytes actually supplied, never to a length announced inside them.",
 ["inputs","configurations"],"all byte strings (including hostile lengths, nesting, huge zero-padded integers) x all public parsers and consumers x debug and optimised builds",
 "The tests call each parser on a few dozen hand-written inputs; absence of a panic over all inputs, in both build modes, cannot be sampled that way.",
 ["src/ber/parser.rs","src/ber/wrap_any.rs","src/ber/ber.rs","src/ber/integer.rs","src/ber/multi.rs","src/ber/tagged.rs","src/ber/print.rs","src/ber/serialize.rs","src/ber/visit.rs","src/der/parser.rs","src/der/multi.rs","src/der/tagged.rs"],
 [("length guards before slicing","src/ber/wrap_any.rs, src/der/parser.rs"),("recursion budget","src/ber/parser.rs MAX_RECURSION"),("checked bit arithmetic","src/ber/parser.rs bitstring_to_u64"),("leading zero removal","src/ber/integer.rs")])

p("C02","Each parse consumes exactly one element and borrows from the input",
 "A successful parse, BER or DER, consumes exactly the identifier, length and content octets of the first element (plus its end-of-contents octets when the length is indefinite, which only a universal primitive 00 00 terminates), and returns the rest of the input unchanged. The outcome does not depend on what follows the element: appending any bytes to an accepted input yields the same object and a remainder extended by exactly those bytes. Every byte or string slice inside the returned object lies inside the consumed part of the input, at the position where it was encoded.",
 ["inputs"],"all accepted inputs, all suffixes, all parsers that return a remainder",
 "Tests compare the remainder for a few single elements, almost always with an empty suffix and definite lengths.",
 ["src/ber/parser.rs","src/ber/wrap_any.rs","src/der/parser.rs","src/ber/multi.rs","src/der/multi.rs"],
 [("content extent computation","src/ber/parser.rs ber_skip_object_content, ber_get_object_content"),("generic object parser","src/ber/wrap_any.rs parse_ber_any_r"),("container split","src/ber/multi.rs parse_ber_container, src/der/multi.rs parse_der_container")])

p("C03","BER decoding yields the value X.690 assigns to the octets",
 "For every byte string the generic BER parser accepts exactly the well-formed elements of supported types and returns class, constructed bit, tag number, length form and value as X.690 prescribes: booleans, raw integer octets, bit strings with their unused-bit count, octet strings, null, enumerated numbers, object identifiers, character strings, times, nested sequences and sets with their members in order. Elements of a non-universal class or of a universal type with no dedicated representation come back as unknown objects carrying their exact content. A malformed member makes the whole enclosing sequence or set fail. Encodings X.690 forbids although their value is unambiguous (constructed bit on a simple type, non-minimal tag number, NULL with content, empty INTEGER) may be tolerated, with that value, or refused. Enumerated content is read as an unsigned number; tag numbers of up to 32 bits are supported and larger ones refused.",
 ["inputs"],"all byte strings, all trees of BER encodings (short, long and non-minimal lengths, indefinite lengths, high tag numbers) within the nesting limit",
 "Each test fixes one encoding; agreement between decoder and standard over all trees and length forms is not sampled.",
 ["src/ber/wrap_any.rs","src/ber/parser.rs"],
 [("content decoder","src/ber/wrap_any.rs try_berobject_from_any"),("header decoding","src/ber/parser.rs ber_read_element_header"),("indefinite length scan","src/ber/parser.rs ber_skip_object_content")])

p("C04","Truncated input is never accepted, and 'incomplete' is truthful",
 "No proper prefix of an element is ever accepted by any parser. The generic and per-type parsers (BER and DER) answer 'incomplete, more data needed' when the input stops before the end of the outermost element, and appending the missing bytes then leads to the same outcome as parsing the whole. Conversely, when the outermost element is entirely present they never answer 'incomplete': malformed or truncated inner members are reported as errors.",
 ["inputs","histories"],"all elements x all cut points, incremental feeding of any split of the input",
 "Tests check a handful of cut points of a few elements.",
 ["src/ber/parser.rs","src/ber/wrap_any.rs","src/der/parser.rs"],
 [("streaming take and length guards","src/ber/parser.rs ber_skip_object_content, src/ber/wrap_any.rs try_read_berobjectcontent_as, src/der/parser.rs der_read_element_content_as"),("member errors wrapped","src/ber/wrap_any.rs sequence and set arms"),("bit string reader","src/der/parser.rs der_read_content_bitstring")])

p("C05","DER parsing accepts exactly the BER that satisfies the DER constraints",
 "The DER parser accepts an input only if the BER parser accepts it, and then both return the same object and remainder. It rejects, at any nesting level of universal sequences and sets, indefinite lengths, booleans other than 00 and FF, empty or non-minimal integers (redundant leading 00 or FF), constructed bit, octet or character strings, bit strings with more than 7 unused bits, with non-zero unused bits or with unused bits but no content, and times not ending in Z. Anything the BER parser accepts that has none of these faults is accepted.",
 ["inputs"],"all byte strings; all trees with one or more DER constraints violated at any depth",
 "Tests exercise each constraint on one top-level example; they never place a violation inside nested structures or combine constraints.",
 ["src/der/parser.rs"],
 [("DER constraint checks","src/der/parser.rs der_read_element_content_as, der_read_content_bitstring"),("DER header","src/der/parser.rs der_read_element_header"),("recursive DER parse","src/der/parser.rs parse_der_recursive, der_read_element_content_recursive")])

p("C06","Nesting and object-size limits are enforced exactly",
 "With a recursion limit n (up to the default, 50), an element whose sequence/set nesting (counting itself) is at most n is accepted and one nested deeper is refused with the maximum-depth error, for BER and DER, for definite and indefinite lengths, and for any mix of sequences and sets; the default limit, used when none is given, is 50. Limit 0 refuses everything. An element announcing a definite length above the maximum object size (2^32-1 bytes) is refused with an invalid-length error instead of asking for more data, by the generic, recursive, per-type, tag-checked, any- and content parsers.",
 ["inputs","configurations"],"all nesting depths around the limit x all limits 0..=50 x position of the deep branch x length forms x BER/DER",
 "Tests probe one or two depths with one shape.",
 ["src/ber/wrap_any.rs","src/ber/parser.rs","src/der/parser.rs"],
 [("depth budget","src/ber/wrap_any.rs try_berobject_from_any, src/ber/parser.rs ber_skip_object_content, src/der/parser.rs"),("MAX_OBJECT_SIZE","src/ber/wrap_any.rs, src/der/parser.rs parse_der_recursive")])

p("C07","Integers convert exactly or report an error, never a wrong number",
 "Converting an INTEGER to a signed or unsigned 32- or 64-bit number or to a big integer yields exactly the two's-complement value of its content octets, or an error: negative for an unsigned target, too large when the value does not fit. Every value that fits the target and is minimally encoded, or is non-negative with any number of leading zero octets, converts successfully. The direct integer parsers (BER and DER) agree with parsing the object and converting it, ENUMERATED values convert likewise, and non-integers are refused.",
 ["inputs"],"all integer contents of any length, especially around 2^31, 2^32, 2^63, 2^64 and their negatives, with redundant leading octets",
 "Tests use a short table of constants; boundaries with padding and sign bits are not covered.",
 ["src/ber/ber.rs","src/ber/integer.rs","src/ber/parser.rs","src/der/parser.rs"],
 [("fixed width decoding","src/ber/integer.rs decode_array_*"),("accessors","src/ber/ber.rs as_i64, as_i32, as_u64, as_u32, as_bigint, as_biguint"),("direct parsers","src/ber/parser.rs parse_ber_i32.., src/der/parser.rs parse_der_i32..")])

p("C08","Bit strings expose exactly their bits",
 "For every bit string object, testing bit n reports the n-th bit counted from the most significant bit of the first octet, and false beyond the data; the bit-slice view lists the same bits. Converting it to an unsigned 64- or 32-bit number drops the declared unused bits and yields exactly the remaining bits as a big-endian number, or an error when more bits are declared unused than exist or the number does not fit (more than 64 bits; value above 32 bits). Unused-bit count and octets read from the input are reported unchanged.",
 ["inputs"],"all bit string contents x all unused-bit counts 0..=255 x all bit positions",
 "Tests check two conversions and four bit positions.",
 ["src/ber/ber.rs","src/ber/parser.rs","src/der/parser.rs","src/ber/wrap_any.rs"],
 [("bit access","src/ber/ber.rs BitStringObject"),("integer conversion","src/ber/parser.rs bitstring_to_u64"),("decoding","src/ber/wrap_any.rs, src/der/parser.rs der_read_content_bitstring")])

p("C09","Character strings are admitted only within their alphabet and returned verbatim",
 "A character string is accepted exactly when its octets are in its type's repertoire: digits and space for numeric, the X.680 printable set, ASCII for IA5, general, graphic and object-descriptor, octets 20..7F for visible, teletex and videotex, valid UTF-8 for UTF8, even-length valid UTF-16BE for BMP, any octets for universal strings. Accepted text is returned octet for octet as text and as bytes, under the right type; constructed encodings of these types are refused.",
 ["inputs"],"all string types x all contents, in particular single out-of-alphabet octets at any position and malformed UTF-8/UTF-16",
 "Tests give one valid and one invalid example per type.",
 ["src/ber/wrap_any.rs","src/ber/ber.rs","src/der/parser.rs"],
 [("charset check","src/ber/wrap_any.rs from_obj! STRING, BmpString and UniversalString arms"),("text access","src/ber/ber.rs as_str, as_slice")])

p("C10","Times decode to exactly the written date and time",
 "A UTCTime or GeneralizedTime is accepted exactly when it has the documented shape (two- or four-digit year, month up to 12, day up to 31, hour up to 23, minute and optional second up to 59; optional fraction of up to three digits for GeneralizedTime; Z or a numeric offset, which GeneralizedTime may omit in BER), and every field returned equals the written one, with the fraction in milliseconds. DER additionally requires the trailing Z.",
 ["inputs"],"all time strings: all field values incl. out of range, all fraction lengths, all zone forms, single-character corruptions",
 "Tests cover fewer than ten literal times.",
 ["src/ber/wrap_any.rs","src/der/parser.rs","src/ber/parser.rs"],
 [("time decoding","src/ber/wrap_any.rs UtcTime and GeneralizedTime arms"),("DER zone check","src/der/parser.rs der_read_element_content_as")])

p("C11","Encoding and parsing are inverse to each other",
 "Encoding any object obtained from the parser, or built from well-formed universal content with the constructors, succeeds and produces bytes that parse back, entirely consumed, to an object with the same class, tag number, constructed bit and value at every level, and encoding that again gives the same bytes. Lengths in the output are definite and minimal and tag numbers of any size are encoded in minimal form, so an input already in minimal definite form with canonical values (booleans 00 or FF, enumerated numbers in minimal unsigned octets) is reproduced byte for byte. Wrapping an object in an explicit or implicit tag produces bytes that the matching tagged parser reads back as the same object under that class and tag.",
 ["inputs","programs"],"all accepted inputs; all object trees built from content values; all tags and classes",
 "Tests round-trip about fifteen small objects with tag numbers below 31 and lengths below 128.",
 ["src/ber/serialize.rs","src/ber/ber.rs"],
 [("object encoder","src/ber/serialize.rs ber_encode_object, ber_encode_object_content"),("header and length encoder","src/ber/serialize.rs ber_encode_header, encode_length"),("tag wrappers","src/ber/serialize.rs ber_encode_tagged_explicit, ber_encode_tagged_implicit"),("constructors","src/ber/ber.rs from_obj, from_seq, from_set, from_int_slice")])

p("C12","Sequence/set combinators parse all members and nothing else",
 "The 'of' combinators (sequence or set; BER and DER; objects or any item type and error type) succeed exactly when the element has the right tag and its whole content splits into items accepted one after the other by the item parser, and return those items in order; any item failure, or content left over, fails the whole parse, carrying the item parser's own error. The 'defined' and generic container combinators hand the callback exactly the element's content and header, return the callback's result or error, skip content the callback left unread, and continue right after the element. A combinator built once gives the same answers however often and in whatever order it is applied.",
 ["inputs","programs","histories"],"all element contents x item parsers x container kinds x sequences of applications of one combinator value",
 "Tests use two or three integer lists per combinator and never reuse a combinator after a failure.",
 ["src/ber/multi.rs","src/der/multi.rs"],
 [("repetition with full consumption","src/ber/multi.rs, src/der/multi.rs *_of_v"),("container","parse_ber_container, parse_der_container"),("tag check","*_defined_g")])

p("C13","Explicit, implicit and optional tagging combinators follow X.690",
 "The explicit-tag combinators accept exactly constructed, non-universal elements with the requested tag number, give the inner parser exactly the content, and return the inner object together with the element's class and tag; the implicit-tag combinators check the tag number and decode the content as the requested type in every length form, keeping the element's own class and tag. The optional combinators never fail: they return the inner object and the advanced input, or 'absent' with the input untouched. BER and DER variants agree on DER input, and the DER variants refuse indefinite lengths.",
 ["inputs","programs"],"all tags, classes, primitive/constructed, definite/indefinite lengths, inner parsers, present/absent/malformed inner values",
 "Tests use a few context-specific tags with definite lengths.",
 ["src/ber/tagged.rs","src/der/tagged.rs","src/ber/parser.rs","src/der/parser.rs"],
 [("explicit","src/ber/tagged.rs parse_ber_tagged_explicit(_g), src/der/tagged.rs"),("implicit","src/ber/tagged.rs parse_ber_tagged_implicit(_g), parse_ber_implicit"),("optional","src/ber/parser.rs parse_ber_optional, parse_ber_explicit_optional")])

p("C14","Per-type, slice and content parsers agree with the generic parser",
 "A per-type parser (BER or DER) succeeds exactly on elements carrying its tag number whose content is valid for that type, and on universal elements returns the same object and remainder as the generic parser; any other tag is refused as an unexpected tag. Reading the header and then the content as a type, parsing the raw content slice for a tag, the tag-checked recursive parser and the non-recursive any-parser all agree with the generic parser on header, content bytes, value and remainder.",
 ["inputs"],"all per-type parsers x all byte strings, in particular each type's valid content under every tag number",
 "Tests call each per-type parser on one or two inputs, mostly with the matching tag.",
 ["src/ber/parser.rs","src/der/parser.rs","src/ber/wrap_any.rs"],
 [("tag-directed parsing","src/ber/parser.rs parse_ber_with_tag, src/der/parser.rs parse_der_with_tag"),("slice parsers","parse_ber_slice, parse_der_slice"),("content parsers","parse_ber_content(2), parse_der_content(2), ber_read_element_content_as, der_read_element_content(_as)")])

p("C15","Accessors and iterators reveal exactly the object's content",
 "Each typed accessor returns the stored value when the object is of that kind and an error otherwise, never another kind's data; header queries and assertions answer according to class, tag and constructed bit. Iterating a sequence or set by reference, by value or by index yields exactly its members, in order, once each (nothing when it is empty); by-value iteration of any other object yields that object once and by-reference iteration nothing.",
 ["inputs","histories"],"all object kinds x all accessors; all member counts including zero; iteration continued past the end",
 "Tests iterate one two-element sequence and read a few accessors on matching kinds.",
 ["src/ber/ber.rs"],
 [("accessors","src/ber/ber.rs as_*"),("iterators and index","src/ber/ber.rs IntoIterator, ref_iter, Index"),("header queries","src/ber/ber.rs is_*, assert_*")])

p("C16","Visitors see every object once, in order, with its depth and value",
 "Running a visitor over an object calls the general callback and then the callback specific to the object's kind exactly once for the object and for every member of nested sequences and sets, parent before members, members in encoded order, with the stored value and a depth equal to the starting depth plus nesting level. The mutable visitor makes the same calls, and changes made by its callbacks are exactly the changes found in the tree afterwards, including members added to or removed from a container before it is descended into.",
 ["inputs","histories"],"all object trees x all kinds x starting depths x sequences of mutations",
 "No existing test checks any visitor call.",
 ["src/ber/visit.rs","src/ber/visit_mut.rs"],
 [("traversal","src/ber/visit.rs visit_ber_bfs, src/ber/visit_mut.rs visit_ber_bfs_mut")])

p("C17","Pretty-printing shows every object, value and nesting level",
 "Pretty-printing any object in recursive mode shows, for every element of nested sequences and sets in document order, its type name and its value, indented by the starting indent plus the increment per nesting level; without the recursive flag only the outermost element is shown. With the header flag every shown element is preceded by its tag (universal type name, or number with class), a constructed mark and its length. Setting, testing and clearing flags behave as a set and do not otherwise alter the output.",
 ["inputs","configurations"],"all object trees x indents x increments x flag settings",
 "The existing test only prints without asserting anything.",
 ["src/ber/print.rs"],
 [("formatter","src/ber/print.rs Debug for PrettyBer"),("header printer","src/ber/print.rs dbg_header"),("flags","src/ber/print.rs set_flag, unset_flag, is_flag_set")])

p("C18","Compile-time OID macros produce the standard encoding",
 "For every object identifier with a first component of at most 2 and a second below 40, and every relative identifier, with components of any size (up to 128 bits, and relative identifiers up to 50 characters, for the re-exported macro oid!), the compile-time macros yield exactly the base-128 content octets X.690 prescribes (big-endian groups of seven bits, minimal length, continuation bit on all but the last octet). An identifier written with the macro therefore equals the one parsed from the corresponding encoding, and decoding it returns the written components (below 2^63). Identifiers this scheme cannot encode (second component above 39 under 0 or 1, a lone non-zero component) are refused at compile time.",
 ["programs","inputs"],"all component lists, in particular components around every power of 2^7 and 2^8 and beyond 64 bits",
 "The crate's tests use a handful of identifiers; the macro crate has no tests of its own.",
 ["der-oid-macro/src/lib.rs","src/lib.rs"],
 [("component encoder","der-oid-macro/src/lib.rs encode_components"),("macro front end","der-oid-macro/src/lib.rs encode_oid, src/lib.rs oid!")])

p("C19","Conversion from a generic element agrees with direct parsing",
 "Reading an element as a raw generic element and then converting that to an object (by value or by reference) gives the same outcome and the same object as parsing the bytes directly, for every class, tag, length form and type, including indefinite lengths and non-universal classes. The raw element carries exactly the header and content octets of the input.",
 ["inputs"],"all byte strings",
 "One test converts one integer.",
 ["src/ber/ber.rs","src/ber/wrap_any.rs"],
 [("TryFrom conversions","src/ber/ber.rs"),("raw element parser","src/ber/wrap_any.rs parse_ber_any")])

p("C20","Results do not depend on build profile or optional features",
 "For every input, parsing, value access, printing and error classification give identical results in debug and release builds and with any combination of the crate's optional features (none, big integers, bit vectors, serialization, std), features only adding functions.",
 ["configurations","inputs"],"all inputs x build profiles {debug, release} x feature sets",
 "The test suite runs in one profile with all features on.",
 ["Cargo.toml","src/lib.rs","src/ber/ber.rs","src/ber/mod.rs"],
 [("feature gates","src/lib.rs, src/ber/mod.rs, src/ber/ber.rs cfg attributes")])

p("C21","Parsing is a pure function of the input",
 "The outcome of any parsing, conversion, printing, encoding, access or traversal operation (octets consumed, resulting object, error) depends only on its arguments: it is the same when the operation is repeated, whatever operations were performed before it in the same thread or process on whatever inputs (successful, malformed, nested too deeply, truncated or announcing too much), wherever in memory the input lies, whatever memory follows it, and whatever other threads do at the same time. A parser value obtained from a combinator can be applied to any number of inputs in any order and behaves each time like a newly built one.",
 ["histories","schedules","inputs"],"all histories of operations over pools of inputs, one or several threads, all placements in memory",
 "Tests call each parser once on one input in one thread.",
 ["src/ber/parser.rs","src/der/parser.rs","src/ber/multi.rs","src/der/multi.rs","src/ber/tagged.rs","src/der/tagged.rs","src/ber/wrap_any.rs","src/ber/print.rs","src/ber/serialize.rs"],
 [("parsers","src/ber/parser.rs, src/der/parser.rs"),("combinators","src/ber/multi.rs, src/ber/tagged.rs and their DER counterparts"),("consumers","src/ber/print.rs, src/ber/serialize.rs, src/ber/visit.rs")])

p("C22","Objects compare equal exactly when their values do",
 "Two objects compare equal exactly when they agree in class, tag number, constructed bit, kind of content and value, at every level, with the same members in the same order; how a length was written (short, long, padded, indefinite) does not matter. Hence comparison is reflexive and symmetric, a clone equals its original in everything including header details, the parses of two copies of the same octets are equal, as are the BER and DER parse, and any difference in a single octet or bit of a value, a field of a time, an unused-bit count, the class or tag of a wrapper or a member makes objects unequal. Contents and bit strings compare likewise.",
 ["inputs"],"all pairs of objects, parsed or built, in particular pairs differing in one place and pairs differing only in length form",
 "Tests compare objects that are meant to be equal; an equality that is too generous would make them pass.",
 ["src/ber/ber.rs"],
 [("object and content equality","src/ber/ber.rs BerObject, BerObjectContent, BitStringObject")])

p("C23","Effort stays proportional to the size of the input",
 "The processor time of every parser, combinator and conversion, and of cloning, comparing, encoding, printing, visiting, iterating, indexing or reading an object, grows at most in proportion to the number of input octets times a factor for the (limited) nesting depth, for every shape of input: many members, long primitives, wide and deep nesting, indefinite lengths, inputs that turn out malformed or truncated at the very end. No operation fails to terminate.",
 ["inputs"],"all inputs, in particular large ones whose structure repeats, fails late, or nests",
 "Tests use inputs of a few dozen octets, on which a quadratic or exponential algorithm is not noticed.",
 ["src/ber/parser.rs","src/der/parser.rs","src/ber/multi.rs","src/der/multi.rs","src/ber/ber.rs","src/ber/serialize.rs","src/ber/print.rs","src/ber/visit.rs","src/ber/visit_mut.rs","src/ber/wrap_any.rs"],
 [("member loops and indefinite-length scanning","src/ber/parser.rs, src/ber/multi.rs"),("walks over objects","src/ber/serialize.rs, src/ber/print.rs, src/ber/visit.rs, src/ber/ber.rs")])

p("C24","Writing encodings and text is exact or reports an error",
 "Every encoding function, given any writer, either reports success after writing exactly the octets of the encoding, in order, after whatever the writer already holds, with the number of octets it reports, or reports an error. A write that fails, is interrupted or takes only part of the octets, at whatever point, or a writer that is full, never leads to reported success with octets missing, doubled or out of order; without such a fault encoding does not fail for the writer's sake. Encodings written one after the other into one writer are concatenated, and a generator can be applied again with the same result. Pretty-printing likewise reports an error when the text sink refuses part of the text, and only then, having written a prefix of it.",
 ["fault_sequences","inputs","histories"],"all objects x all encoding functions x a fault at any write, including those to intermediate buffers",
 "Tests encode into an empty growable vector, which never fails.",
 ["src/ber/serialize.rs","src/ber/print.rs"],
 [("printer","src/ber/print.rs Debug for PrettyBer"),("encoders","src/ber/serialize.rs ber_encode_object, ber_encode_object_raw, ber_encode_header, ber_encode_tagged_explicit, ber_encode_tagged_implicit")])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
