#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the file stays consistent).
import json
P=[]
V="vtdxml/"
def prop(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":[V+f for f in files],"mechanism":[{"name":n,"where":V+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":V+w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PARSE="the result of parser construction and Parse"
NAV="the navigation object returned after parsing (token accessors, element moves, string accessors)"
prop("C01","Parsing any bytes ends with success or an error, never a panic or hang",
 "For every byte sequence, every offset/length window accepted by the constructor and every option combination, constructing a parser and parsing returns, either successfully or with an error. It never panics and never loops without end.",
 ["inputs","configurations"],"every byte string x window x {namespace aware, location cache depth}",
 "The tests parse nine valid files and seven files with one planted mistake; truncated input, tiny documents, stray end tags and window edges are never tried.",
 ["parser/parse.go","parser/process.go","parser/common.go","parser/vtd_parser.go","reader/utf8_reader.go","reader/ascii_reader.go"],
 [("state machine loop","parser/parse.go"),("bounded reads at the end of the window","reader/utf8_reader.go")],observe=[PARSE])
prop("C02","Documents that are not well-formed XML are rejected",
 "For every document that violates XML 1.0 well-formedness (unbalanced or mismatched tags, no root element or more than one, character data outside the root, unterminated markup, characters not allowed in names, text, comments or instructions, '<' in attribute values, ']]>' in text, '--' in comments, 'xml' as instruction target, document type declaration after the root start, missing white space between attributes), parsing returns an error. The content of a document type declaration is only scanned for its end.",
 ["inputs","configurations"],"every ill-formed document, with and without namespace awareness",
 "Seven hand-written ill-formed files are tested; each state of the grammar has many more ways to go wrong.",
 ["parser/process_lt_seen.go","parser/process_start_tag.go","parser/process_end_tag.go","parser/process_text.go","parser/process_cdata.go","parser/process_start_comment.go","parser/process_end_comment.go","parser/process_pi_tag.go","parser/process_pi_val.go","parser/process_pi_end.go","parser/process_doc_start.go","parser/process_doc_end.go","parser/process_doc_type.go","parser/process_attr_name.go","parser/process_attr_val.go"],
 [("per-state character checks","parser"),("tag stack comparison of end tags","parser/process_end_tag.go")],observe=[PARSE])
prop("C03","Well-formed documents are accepted",
 "For every well-formed UTF-8 document built from the supported constructs (elements, attributes, text, predefined and character references, CDATA sections, comments and processing instructions before, inside and after the root element, a document type declaration before it, an XML declaration, white space wherever the grammar allows it) and within the documented size limits, parsing succeeds.",
 ["inputs","configurations"],"every supported well-formed document, with and without namespace awareness",
 "Nine sample files are parsed; most legal positions of comments, instructions, CDATA and white space never occur in them.",
 ["parser/parse.go","parser/process_lt_seen.go","parser/process_element_tail.go","parser/process_end_comment.go","parser/process_pi_end.go","parser/process_doc_type.go","parser/process_cdata.go","parser/process_text.go"],
 [("state machine transitions","parser/parse.go")],observe=[PARSE])
prop("C04","The token stream describes the document exactly",
 "After a successful parse the recorded tokens are, in document order and after the leading document token, exactly the start tags, attribute names, namespace declarations, attribute values, character data, CDATA sections, comments, instruction targets and values, document type declaration and XML declaration parts of the document. Each token has the right type, the byte offset and length of its content (qualified name length and prefix length for names) and the nesting depth at which it occurs; the value of an instruction starts after the one white-space character that ends its target; white space between tags is not recorded unless it is the whole content of an element, and an element written with separate start and end tags and no child markup always gets one text token, possibly empty.",
 ["inputs","configurations"],"every accepted document, with and without namespace awareness, both location cache depths",
 "No test looks at a single token of a parsed document.",
 ["parser/common.go","parser/process_start_tag.go","parser/process_attr_name.go","parser/process_attr_val.go","parser/process_text.go","parser/process_element_tail.go","parser/process_cdata.go","parser/process_pi_val.go","parser/process_dec_attr_name.go","navigation/common.go","common/common.go"],
 [("64-bit token record writer","parser/common.go")],
 [("token buffer","one 64-bit record per token: type, depth, prefix length, length, offset","parser/vtd_parser.go")],observe=[NAV])
prop("C05","Repeated attribute names are rejected, distinct ones accepted",
 "A start tag in which two attributes (namespace declarations included) have the same qualified name is rejected, whatever their number, position, length and values. Start tags whose attribute names are pairwise different are accepted, for any number of attributes, and attributes of one element never conflict with those of another.",
 ["inputs","configurations"],"every start tag: number of attributes, names, values, surrounding elements",
 "No test document repeats an attribute, none has more than a handful.",
 ["parser/process_attr_name.go","parser/process_attr_val.go"],[("attribute name comparison","parser/process_attr_name.go")],
 [("attribute list","offset and length of each attribute name of the current element","parser/vtd_parser.go")],observe=[PARSE])
prop("C06","Namespace prefixes must be declared in scope",
 "With namespace awareness on, a document is rejected when an element or attribute uses a prefix other than xml that is not declared on the same element or an open ancestor, and accepted when every used prefix is declared there. Declarations go out of scope at the end of their element (also an empty-element tag), inner declarations are added to outer ones, and with namespace awareness off undeclared prefixes are accepted.",
 ["inputs","configurations","histories"],"every nesting and order of declarations and uses",
 "The sample documents declare everything on the root and are all valid; no test uses an undeclared or out-of-scope prefix.",
 ["parser/process_start_tag.go","parser/process_attr_val.go","parser/process_attr_name.go","parser/common.go","buffer/long_buffer.go","buffer/int_buffer.go"],
 [("namespace scope stack","parser/process_start_tag.go"),("prefix lookup","parser/common.go")],
 [("namespace buffers","open declarations and, per depth, how many are in scope","parser/vtd_parser.go")],observe=[PARSE])
prop("C07","Reserved namespace names and clashing qualified attributes are rejected",
 "With namespace awareness on, declaring the prefix xmlns, binding xml to anything but the XML namespace name, binding another prefix or the default namespace to the XML or the xmlns namespace name, binding a prefix to the empty name, using xmlns as an element prefix, or giving an element two attributes with the same local name whose prefixes are bound to the same namespace name is rejected. Namespace names are compared after references are resolved; all other bindings, including xml bound to its own name, are accepted.",
 ["inputs"],"every namespace declaration value and every pair of prefixed attributes",
 "No test declares a reserved name or two prefixes for one namespace.",
 ["parser/process_attr_val.go","parser/process_attr_name.go","parser/common.go"],
 [("namespace name classification","parser/process_attr_val.go"),("qualified attribute uniqueness","parser/process_attr_val.go")],observe=[PARSE])
prop("C08","The XML declaration follows its grammar",
 "An XML declaration is accepted exactly when it consists of version (1.0 or 1.1), then optionally encoding, then optionally standalone (yes or no), separated by white space, each value in matching quotes, and closed by '?>', at the very start of the document. A declared encoding that is not UTF-8, ASCII or US-ASCII (in any letter case) or that contradicts the byte order mark is an error, and the declared names and values are recorded as tokens.",
 ["inputs"],"every XML declaration",
 "Six malformed declarations are tested, one per attribute name and value; quotes, separators, order, case variants and partial matches are not.",
 ["parser/process_doc_start.go","parser/process_dec_attr_name.go"],[("declaration state","parser/process_dec_attr_name.go")],observe=[PARSE,NAV])
prop("C09","Character and entity references are validated while parsing",
 "In text and attribute values an '&' is accepted exactly when it starts one of the five predefined entity references or a decimal or hexadecimal character reference with at least one digit that denotes a character allowed by XML 1.0, terminated by ';'. Everything else is rejected, whatever the number of digits.",
 ["inputs"],"every reference, in text, first after a tag, in attribute values",
 "Only well-formed documents with a few predefined entities are parsed by the tests.",
 ["parser/common.go","parser/process.go","parser/process_attr_val.go","parser/process_text.go"],[("reference recogniser","parser/common.go")],observe=[PARSE])
prop("C10","Documents beyond the record limits are rejected, those within are accepted",
 "Nesting deeper than 255 levels, element or attribute names longer than 2047 bytes, prefixes longer than 511 bytes, and attribute values, instruction targets or values, or document type declarations longer than 1048575 bytes are rejected with an error. Documents exactly at those limits are accepted and their tokens report the true lengths and depths.",
 ["inputs"],"documents around each limit",
 "No test document comes near any limit.",
 ["parser/process_start_tag.go","parser/process_attr_name.go","parser/common.go"],[("limit checks","parser/process_start_tag.go"),("length-checked writer","parser/common.go")],observe=[PARSE,NAV])
prop("C11","Long text is recorded completely",
 "Character data, CDATA sections and comments longer than one record can hold (1048575 bytes) are recorded as consecutive records that together cover exactly the content, in order and without gap or overlap. The length reported for the first of them is the length of the whole run, and the length reported for a run never includes a different neighbouring token.",
 ["inputs"],"every content length and position, every record sequence",
 "No test has content over one megabyte, and no test has two neighbouring text records.",
 ["parser/common.go","navigation/common.go"],[("text splitting writer","parser/common.go"),("run length computation","navigation/common.go")],observe=[NAV])
prop("C12","A window parses exactly like a copy of that window",
 "Parsing a part of a byte slice given by offset and length has the same outcome as parsing a copy of just those bytes, and every recorded offset is larger by exactly the window offset. Bytes outside the window have no influence.",
 ["inputs","configurations"],"every document, offset, length and surrounding bytes",
 "No test uses a custom window.",
 ["parser/vtd_parser.go","parser/parse.go","parser/common.go","parser/process_end_tag.go","reader/utf8_reader.go"],[("window bounds","parser/vtd_parser.go")],observe=[PARSE,NAV])
prop("C13","Parsing and navigation have no side effects",
 "Constructing a parser, parsing, navigating and reading strings never modifies the input bytes, writes to standard output or changes package-level state shared between instances. Results depend only on the input and options: repeating the work, or interleaving it with other parsers, gives the same results.",
 ["inputs","histories"],"every document and interleaving of instances",
 "Tests compare no input before and after and never check what is printed or shared.",
 ["parser/parse.go","parser/common.go","erroring/erroring.go","buffer/byte_buffer.go"],[("state kept per instance","parser/vtd_parser.go")],observe=["input slice","standard output","package-level variables"])
prop("C14","Parse errors report the line the problem is on",
 "When parsing fails because of a character that is not allowed where it stands (not a malformed reference, an undecodable byte or premature end), the error carries a position whose line number is one plus the number of line feeds between the start of the window and that character. No position ever names a line outside the window, wherever the window lies in the input.",
 ["inputs"],"every rejected document",
 "The tests compare error messages without position.",
 ["parser/common.go","erroring/erroring.go"],[("position formatter","parser/common.go")],observe=["position text of the parse error"])
prop("C15","After parsing, navigation visits every element exactly once",
 "The navigation object obtained after a successful parse starts at the document, has the document's encoding and token count, and moving to the root and then depth-first with first-child and next-sibling visits exactly the element start tags of the document in document order, each at the level it is nested. This holds for both location cache depths, any shape of tree and any number of elements.",
 ["inputs","configurations"],"every accepted document x location cache depth",
 "No test obtains a navigation object from a parser.",
 ["parser/get_nav.go","parser/common.go","parser/parse.go","parser/process_start_tag.go","navigation/vtd_nav.go","navigation/to_element.go"],
 [("location caches per level","parser/common.go"),("cursor moves","navigation/to_element.go")],
 [("location cache entries","token index and index of first child entry, all ones for none","parser/common.go")],observe=[NAV])
prop("C16","Token accessors decode every record",
 "For every 64-bit token record the reported type is the top four bits, the depth is the next eight bits (with all ones reported as -1), the offset is the low thirty bits, and the length is the length field appropriate to the token type: qualified name length (combined with the prefix length in the upper half when namespace aware) for element and attribute names, the full twenty bits otherwise.",
 ["inputs","configurations"],"all 2^64 records, both namespace settings",
 "Tests decode a handful of records.",
 ["navigation/common.go","common/common.go"],[("bit masks","common/common.go")],observe=["token type, offset, length and depth accessors"])
prop("C17","Last child, previous sibling, parent and root moves follow the tree",
 "On every element of every accepted document, moving to the last child, previous sibling, next sibling, first child, parent or root reaches exactly the corresponding element, or reports false exactly when there is none; the parent of the root is the document, whose child is the root. The result does not depend on the moves made before.",
 ["inputs","histories","configurations"],"every document x every sequence of moves x location cache depth",
 "No element move is tested.",
 ["navigation/to_element.go","parser/common.go"],[("cursor moves per level","navigation/to_element.go")],
 [("cursor","depth, token index per level, location cache positions","navigation/vtd_nav.go")],observe=[NAV])
prop("C18","Failed moves leave the cursor in place; illegal directions are errors",
 "A move that reports false or an error leaves the current element unchanged, and later moves behave as if it had not been tried. A direction outside the defined ones yields a navigation error.",
 ["inputs","histories"],"every document, cursor position and move, every direction value",
 "No element move is tested.",
 ["navigation/to_element.go","erroring/erroring.go"],[("move guards","navigation/to_element.go")],observe=[NAV])
prop("C19","Raw strings return the token's characters",
 "The raw string of a token or range consists of exactly the bytes of the document it covers, references left as written, except that each carriage return, alone or followed by a line feed, is returned as a single line feed.",
 ["inputs"],"every document content, token and range",
 "Tests read a few fixed ASCII ranges.",
 ["navigation/to_string.go","navigation/get_char_resolved.go"],[("character reader","navigation/get_char_resolved.go")],observe=["raw string accessors"])
prop("C20","Resolved strings replace references by the characters they denote",
 "The string of a character data or attribute value token, and of any range, equals its raw string with each predefined entity reference and each decimal or hexadecimal character reference replaced by the UTF-8 encoding of the character it denotes. Strings of other tokens equal their raw strings, a malformed reference gives an error, and the call always returns.",
 ["inputs"],"every content mixing text and references",
 "Tests resolve a few fixed strings without references of every kind.",
 ["navigation/to_string.go","navigation/get_char_resolved.go"],[("reference resolver","navigation/get_char_resolved.go")],observe=["string accessors"])
prop("C21","Out-of-range token indexes and ranges are errors",
 "Every token and string accessor given an index that is negative or not below the token count, or a range that does not lie inside the document, returns an error; a valid index or range returns no error. No index, offset or length value causes a panic or wraps around.",
 ["inputs"],"all index, offset and length values",
 "Tests use a few indexes just outside small buffers.",
 ["navigation/common.go","navigation/to_string.go","buffer/long_buffer.go","buffer/byte_buffer.go"],[("bounds checks","buffer/long_buffer.go")],observe=["token and string accessors"])
prop("C22","Growable buffers behave as lists",
 "For every page size and any sequence of appends, reads, modifications and conversions, a long, int or object buffer returns at each index below its size the value last written there, and conversion to an array gives exactly its elements in order. A read or modification at any index outside returns an error and changes nothing.",
 ["inputs","histories","configurations"],"every operation sequence, value, index and page size",
 "Tests fill one page in order and read it back; nothing crosses a page boundary.",
 ["buffer/long_buffer.go","buffer/int_buffer.go","buffer/object_buffer.go"],[("page arithmetic","buffer/long_buffer.go")],
 [("pages","element i lives at page i>>exp, offset i&(pageSize-1)","buffer/long_buffer.go")],observe=["buffer accessors"])
prop("C23","Truncated or cleared buffers keep their prefix and can be refilled",
 "After setting a smaller size or clearing, a long, int or object buffer contains exactly the retained prefix, removed elements are no longer readable, and later appends continue directly after the prefix as if the removed elements had never existed.",
 ["inputs","histories","configurations"],"every interleaving of append, truncate and clear, every page size",
 "Tests clear a buffer once and look only at its size.",
 ["buffer/long_buffer.go","buffer/int_buffer.go","buffer/object_buffer.go"],[("size and capacity bookkeeping","buffer/long_buffer.go")],observe=["buffer accessors"])
prop("C24","Upper and lower halves of a long entry are exact",
 "For every 64-bit value stored in a long buffer the lower-half and upper-half accessors return its low and high 32 bits, so that the value can be put back together from them.",
 ["inputs"],"all 2^64 values and valid indexes",
 "Tests store small numbers whose top bits are zero.",
 ["buffer/long_buffer.go"],[("half extraction","buffer/long_buffer.go")],observe=["half accessors"])
prop("C25","Byte buffers return exactly the requested bytes",
 "A byte buffer returns the byte at every valid index, its full contents and size unchanged, and for every offset and positive length inside the buffer the slice of exactly those bytes. Any other index, offset or length is an error and never a panic.",
 ["inputs"],"all contents, indexes, offsets and lengths",
 "Tests slice only from offset zero.",
 ["buffer/byte_buffer.go"],[("bounds checks","buffer/byte_buffer.go")],observe=["byte buffer accessors"])
prop("C26","Every page size option is either usable or rejected",
 "Creating a long, int or object buffer with any page-size exponent either returns an invalid-argument error or a buffer that works for that page size (a power of two); it never panics and never returns a buffer whose operations fail.",
 ["inputs","configurations"],"all integer exponents",
 "Tests use exponents 10, 32 and 2048.",
 ["buffer/long_buffer.go","buffer/int_buffer.go","buffer/object_buffer.go"],[("constructor validation","buffer/long_buffer.go")],observe=["buffer constructors"])
prop("C27","Character readers stay in their window and decode faithfully",
 "Within the window given at construction, the UTF-8 and ASCII readers return each character once and in order, fail on bytes that are not valid in their encoding, report end of input at the window end, skip a character or sequence exactly when it comes next (otherwise reporting false), and report the current offset. Reads, skips and positional lookups never touch bytes outside the window and never panic.",
 ["inputs","histories"],"all contents, windows and operation sequences",
 "Tests construct readers and read a few ASCII characters.",
 ["reader/utf8_reader.go","reader/ascii_reader.go"],[("window checks","reader/utf8_reader.go")],observe=["reader methods"])
prop("C28","Character classes match the XML 1.0 productions",
 "For every 32-bit value, the classification as valid character, white space, name start character, name character and content character is exactly that of the XML 1.0 (fifth edition) productions; content characters are the valid ones except '<', '&' and ']'.",
 ["inputs"],"all 2^32 values",
 "One test checks about 70 characters for one class.",
 ["common/xml_char.go"],[("range tables","common/xml_char.go")],observe=["classification functions"])
prop("C29","Constructors validate their arguments",
 "Constructing a parser without a document, with an empty one, or with a window that does not lie inside it, a reader or byte buffer without data or with a window outside it, or a pilot or modifier with a nil navigator fails with an invalid-argument error and returns no object. Every valid combination of options succeeds, whatever the values.",
 ["inputs","configurations"],"all offsets, lengths and option combinations",
 "Tests call constructors with a few valid and invalid values; windows are not tested.",
 ["parser/vtd_parser.go","reader/utf8_reader.go","reader/ascii_reader.go","buffer/byte_buffer.go","pilot/auto_pilot.go","modifier/xml_modifier.go","common/int_hash.go"],[("argument checks","parser/vtd_parser.go")],observe=["constructors"])
prop("C30","Modifiers accept exactly the encodings they support",
 "A modifier can be created for a navigator whose encoding is ASCII or UTF-8, whatever its token count, and creation fails with a modify error for every other encoding. A document parsed as UTF-8 or ASCII yields a navigator that both modifier and pilot accept.",
 ["inputs","configurations"],"all encodings and token counts",
 "Modifier and pilot have no tests.",
 ["modifier/xml_modifier.go","common/int_hash.go","pilot/auto_pilot.go"],[("charset selection","modifier/xml_modifier.go")],observe=["modifier and pilot constructors"])
prop("C31","Errors are classified by kind and keep their cause",
 "Every error constructor yields an error of its own kind, recognisable with the standard error inspection functions and not recognised as another kind, whose message contains the given text and which unwraps to the given cause (none when none was given). Failures of the library are reported as the kind that describes them: bad arguments as invalid argument, malformed documents as parse, entity, encoding or end-of-file errors, illegal moves as navigation errors.",
 ["inputs"],"all messages, parameters and causes; all failing calls within the parsing bounds",
 "Tests compare a few messages; kinds and causes are not inspected.",
 ["erroring/erroring.go"],[("typed error constructors","erroring/erroring.go")],observe=["errors returned by the library"])
prop("C32","UTF-8 documents keep their characters and bad encodings are rejected",
 "A document in UTF-8, with or without byte order mark, may use any non-ASCII character in text, attribute values, comments, CDATA sections and instructions and any name character in names, and its tokens and strings cover exactly the bytes of those characters. Invalid UTF-8 sequences (truncated, overlong, surrogates, above U+10FFFF, stray continuation bytes), non-ASCII bytes in a document declared ASCII, and UTF-16 documents are rejected with an error.",
 ["inputs"],"all byte sequences in every position of a document",
 "The sample documents are ASCII.",
 ["reader/utf8_reader.go","reader/ascii_reader.go","parser/parse.go","parser/common.go","navigation/get_char_resolved.go"],[("decoder","reader/utf8_reader.go"),("encoding detection","parser/common.go")],observe=[PARSE,NAV])
prop("C33","A navigation object exists only after a successful parse",
 "GetNav fails and returns no navigation object before parsing and after every failed parse. After every successful parse it returns an object positioned at the document whose root element can be reached and is a recorded start tag.",
 ["inputs","histories","configurations"],"every document, accepted or rejected, at whatever point it fails",
 "No test calls GetNav.",
 ["parser/get_nav.go","parser/parse.go"],[("navigation object","parser/get_nav.go")],observe=["GetNav","ToElement"])
prop("C34","Reading never changes anything and navigation objects are independent",
 "Reading tokens and strings through a navigation object never moves its cursor or changes what a later read returns, whatever the index, and moves of one navigation object never change the position or the results of another one obtained from the same parser.",
 ["inputs","histories"],"all interleavings of reads with any index and moves on several navigation objects",
 "Tests read once from an object built by hand.",
 ["navigation/to_string.go","navigation/to_element.go","navigation/common.go","parser/get_nav.go"],[("cursor state","navigation/vtd_nav.go")],observe=[NAV,"GetCurrentIndex"])
prop("C35","Options change only what they name",
 "Cache depth (any integer) and buffer reuse never change whether a document is accepted, the error, the recorded tokens or the elements navigation reaches, and the order in which options are given does not matter. Turning name-space awareness off never rejects a document that is accepted with it on, and the tokens of documents accepted in both modes agree in type, place, length and level.",
 ["inputs","configurations"],"all option values and orders, all documents within the bounds",
 "Tests construct parsers with one or two fixed sets of options.",
 ["parser/vtd_parser.go","parser/init.go","parser/common.go","navigation/to_element.go"],[("option handling","parser/vtd_parser.go")],observe=[PARSE,NAV])
prop("C36","Tokens are recorded in document order, delimited by their markup",
 "The tokens of every accepted document lie inside the given window, do not overlap and follow each other in document order; each is delimited by the markup of its kind (an element name after '<', values between equal quotes, a comment, CDATA section or instruction between its delimiters, text between markup), every attribute and instruction target is directly followed by its value, attributes have the level of their element, an element is at most one level below the one before it, and there is exactly one root element.",
 ["inputs"],"all accepted documents within the bounds, windows included",
 "Tests compare the tokens of two documents.",
 ["parser/common.go","parser/process_attr_val.go","parser/process_start_tag.go","parser/process_text.go"],[("token records","parser/common.go")],observe=[NAV])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
