#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is edited here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Binary serialisation round-trips every described object",
 "For every object built from the supported member types (arithmetic types, bool, enums, strings, fixed and nested arrays, the standard sequence and associative containers nested to any depth, pairs, tuples, smart pointers, base classes, nested classes, const members excepted), unpacking a packed buffer reproduces an equal object. Objects packed one after another come back in order, each unpack consumes exactly the bytes its pack produced, and the buffer is exactly exhausted at the end.",
 ["inputs", "programs"], "every value of every described type, every sequence of objects in one buffer",
 "tests round-trip a handful of fixed or random_init objects of fixed types; container shapes, extreme values, empty/large sizes, embedded NULs, mixed sequences are not reached",
 ["pack_base.h", "pack_stl.h", "pack_epilogue.h", "unpack_base.h", "polyAccessPack.h", "classdesc.cc"],
 [("per type overloads of pack/unpack", "pack_base.h, pack_stl.h"), ("generated access_pack/access_unpack functors", "classdesc.cc output"), ("smart pointer (un)pack", "polyAccessPack.h")],
 observe=["pack_t operator<< / operator>>", "pack_t::size(), pack_t::pos()"])

prop("P02", "Deserialising replaces the whole target; deep comparison is a total order",
 "Packing never changes its argument and equal objects always give identical bytes; unpacking into an object with arbitrary earlier contents gives the same result as unpacking into a fresh one (no stale container elements, characters, pointers). deepEq/deepNeq/deepCmp agree with equality of the objects, and deepCmp and the relational operators on buffers form a consistent total order: antisymmetric, transitive, answering -1, 0 or 1, and 0 exactly for equal contents.",
 ["inputs", "histories"], "all pairs and triples of objects of a described type; all prior states of the unpack target",
 "tests only unpack into fresh or known objects and only use deepEq on equal values",
 ["pack_base.h", "pack_stl.h", "pack_epilogue.h", "polyAccessPack.h"],
 [("containers are cleared/resized before being filled", "pack_stl.h, pack_epilogue.h"), ("pack_t::cmp, deepCmp", "pack_base.h")])

prop("P03", "A pack buffer behaves as a byte stream under any sequence of operations",
 "For every history of writes, raw writes, reads, seeks, resets, appends, pop-offs, swaps, copies/moves and comparisons, a pack buffer's contents, size and read position are those of a simple model: an append-only byte string with a write end and a read cursor, where reading past the end throws and never returns data that was not written. Packing to a file with the file modes gives a file with exactly the bytes the in-memory buffer would have held, which unpacks to the same objects.",
 ["histories", "inputs"], "all operation sequences on one or more buffers, in memory or file backed",
 "tests do one pack then one unpack on a fresh buffer, in a fixed order",
 ["pack_base.h", "pack_stream.h"],
 [("packraw/unpackraw bounds and growth", "pack_base.h"), ("seeki/seeko/reseti/reseto, append, popoff, swap", "pack_base.h"), ("file mode constructor", "pack_base.h")],
 state=[("data,size,pos", "contents, write end and read cursor of a buffer", "pack_base.h pack_t")])

prop("P04", "Truncated or corrupted binary input is rejected cleanly",
 "Unpacking any byte string whatsoever into any described type either completes or throws an exception; it never reads outside the buffer, writes outside the target, corrupts memory, crashes or fails to terminate. A buffer cut short anywhere inside an object's encoding always makes unpacking that object throw.",
 ["inputs", "fault_sequences"], "all byte strings; all truncations, bit flips, and splices of valid encodings; all described target types",
 "no test feeds damaged input",
 ["pack_base.h", "pack_stl.h", "pack_epilogue.h", "polyAccessPack.h", "pack_graph.h"],
 [("bounds check in unpackraw", "pack_base.h"), ("element by element container filling", "pack_stl.h")])

prop("P05", "Pointer graphs and trees survive serialisation up to isomorphism",
 "For pointers declared to follow the tree or graph protocol (by pragma or by the buffer's pointer flag) and for ref smart pointers, unpacking rebuilds a structure isomorphic to the one packed: same node values, same NULLs, and in the graph protocol exactly the same sharing and cycles, whatever the recursion limit. Newly created nodes are owned by the buffer's alloced list and are each destroyed exactly once with it; packing or unpacking a plain pointer without a protocol throws.",
 ["inputs", "configurations"], "all finite graphs and trees, node values and recursion limits",
 "examples use one small fixed graph and the default recursion limit",
 ["pack_graph.h", "pack_base.h", "ref.h", "pack_epilogue.h"],
 [("pack_graph/unpack_graph depth first numbering with restart", "pack_graph.h"), ("pack_tree/unpack_tree", "pack_graph.h"), ("alloced ownership list", "pack_base.h"), ("access_pack<ref>", "ref.h")])

prop("P06", "ref smart pointers share and destroy their target correctly",
 "Under every history of constructing, copying, assigning (ref or value, self-assignment and a ref's own target included), nullifying, reading, swapping in containers and destroying refs, all copies of a ref see one shared target, a ref made from a value owns an independent copy, and each target is destroyed exactly once, when its last ref goes. Equality, nullness and reference count report that state exactly.",
 ["histories"], "all operation sequences over a pool of refs",
 "testRef exercises one straight-line scenario", ["ref.h"],
 [("reference counting in ref<T>", "ref.h")])

prop("P07", "XDR buffers hold the standard XDR encoding and are machine independent",
 "For every sequence of supported arithmetic values, strings, arrays and objects, an XDR buffer contains the big-endian RFC 4506 encoding of that sequence, independent of how the packing was split into operations or of the total length, and unpacks to equal values. Reading past the end throws, and the stream-position operations and swap behave as on a native buffer.",
 ["inputs", "histories"], "all value sequences, in particular longer than one internal chunk",
 "one short object in tests; internal chunk boundary never crossed",
 ["xdr_pack.cc", "pack_base.h"],
 [("xdr_pack chunked XDR memory streams", "xdr_pack.cc"), ("XDR filters per type", "xdr_pack.cc, pack_base.h")])

prop("P08", "XML serialisation round-trips every described object",
 "For every object of supported types whose text is representable, unpacking the XML produced by xml_pack, pretty printed or not, reproduces an equal object: strings with any markup characters, whitespace and non-ASCII bytes, numbers at sufficient stream precision, symbolic enums, arrays, nested containers, maps, smart pointers and base classes.",
 ["inputs", "programs"], "all values of all described types, both layouts",
 "tests use a few fixed strings and random_init values of one class",
 ["xml_pack_base.h", "xml_unpack_base.h", "xml_pack_epilogue.h", "polyAccessXMLPack.h", "xml_common.h"],
 [("xml_pack_t tag writer and xml_quote", "xml_pack_base.h"), ("xml_unpack_t parser and content map", "xml_unpack_base.h")])

prop("P09", "XML output is well formed and means the same to any XML parser",
 "For every object, the document written by xml_pack is a well-formed XML document, and a conforming independent XML parser recovers from it exactly the element structure (one element per member, container elements named after the element type) and the member values as text.",
 ["inputs"], "all values of described types, all string contents that XML can represent",
 "tests only read the XML back with classdesc's own lenient parser, which hides quoting and nesting errors",
 ["xml_pack_base.h", "xml_pack_epilogue.h", "xml_common.h"],
 [("xml_quote and tag emission", "xml_pack_base.h")])

prop("P10", "XML input is understood independent of layout and tolerant of schema changes",
 "Documents that differ only in attribute versus child-element form, comments, processing instructions, doctype, insignificant whitespace, CDATA versus escaped text, self-closing versus empty tags, member order, or the presence of unknown elements unpack to the same object. Members absent from the document keep their previous value.",
 ["inputs"], "all documents equivalent to a packed object under those rewrites; all subsets of members",
 "one hand written document in tests",
 ["xml_unpack_base.h"],
 [("XMLtokeniser", "xml_unpack_base.h"), ("xml_unpack_t::parse and content map", "xml_unpack_base.h")])

prop("P11", "Arbitrary text is accepted or rejected cleanly as XML input",
 "Parsing any byte string as XML and unpacking it into any described type terminates, and either succeeds or throws an exception; it never crashes, corrupts memory or runs forever.",
 ["inputs"], "all byte strings, in particular truncated and mutated documents",
 "no malformed document is tested", ["xml_unpack_base.h", "polyAccessXMLPack.h"],
 [("XMLtokeniser end of input handling", "xml_unpack_base.h")])

prop("P12", "Generated XML schemas are valid and accept every document xml_pack writes",
 "For every described class, xsd_generate writes a valid XML Schema document, and every document xml_pack writes for any value of that class validates against it; documents with a member element missing, duplicated, or of the wrong simple type do not.",
 ["programs", "inputs"], "all described classes and values of supported types",
 "one class and one instance are validated",
 ["xsd_generate_base.h", "xml_pack_base.h"],
 [("xsd_generate_t type and member registry", "xsd_generate_base.h")])

prop("P13", "dump writes every member and element once, in order, with its value",
 "For every object, dump writes one line per base class, member, array or container (at the indentation of its nesting level), in declaration order, naming the member and containing the value of every scalar, string and element; excluded members do not appear and the object is unchanged.",
 ["inputs", "programs"], "all described objects", "tests compare one object with one expected text",
 ["dump_base.h", "dump_epilogue.h"], [("dump overloads per type category", "dump_base.h, dump_epilogue.h")])

prop("P14", "random_init fills every member with a value legal for its type",
 "For every described object and every behaviour of the random source within [0,1), random_init assigns every non-excluded member, array element and base, gives enums only enumerator values, bools only true/false, stays inside array bounds, and is a function of the random source alone.",
 ["inputs"], "all generator sequences and described types",
 "tests run it once with rand()", ["random_init_base.h", "random_init_epilogue.h"],
 [("random_init_t::rand and per type overloads", "random_init_base.h, random_init_epilogue.h")])

prop("P15", "Symbolic enum tables match the declared enumerators exactly",
 "For every enum declaration, the generated table lists every enumerator exactly once, in declaration order, with the compiler's value; looking up a name gives its value, looking up a value gives a name with that value, and an Enum_handle converts both ways and assigns accordingly.",
 ["programs", "inputs"], "all enum declarations (scoped, nested, templated, explicit, repeated or computed values)",
 "a few fixed enums", ["classdesc.cc", "classdesc.h"],
 [("EnumKeys, EnumKey, Enum_handle", "classdesc.h"), ("enum parsing", "classdesc.cc")])

prop("P16", "typeName spells the type it is asked about",
 "For every type built from fundamental types, described classes and enums, namespaces, templates, pointers, const, standard containers and smart pointers, typeName returns text which, used as C++ source, names that same type; different types get different names.",
 ["programs"], "all type expressions", "a few fixed types are compared with strings",
 ["typeName_base.h", "typeName_epilogue.h", "classdesc.h", "classdesc.cc"],
 [("tn<T> specialisations and generated typeName", "classdesc.h, typeName_epilogue.h")])

prop("P17", "Generated descriptors visit every base and member exactly once, in order",
 "For every class the generator accepts, a descriptor applied to an object visits each direct base, then each data member and method, exactly once in declaration order, under its own name and with a reference to that very base, member or (for methods) member function; nothing else is visited. This holds whatever mix of access specifiers, arrays, nested classes, templates, namespaces, initialisers, operators, friends and method bodies the class contains.",
 ["programs"], "all class declarations in the supported language",
 "some dozens of hand written classes",
 ["classdesc.cc", "tokeninput.h"],
 [("parse_class and related parsing", "classdesc.cc"), ("tokeniser", "tokeninput.h")])

prop("P18", "Generator output does not depend on layout, comments or unrelated code",
 "Rewriting a header by changing whitespace, line breaks, comments, line continuations, or by adding unrelated declarations (functions, typedefs, globals, string and character literals containing braces or keywords) leaves the descriptors generated for its classes unchanged, and the generator never crashes or hangs on any input.",
 ["inputs", "programs"], "all layouts of all accepted headers; all byte strings for termination",
 "tests have one layout each", ["classdesc.cc", "tokeninput.h"], [("tokeniser", "tokeninput.h")])

prop("P19", "Private, omitted and excluded parts are never touched",
 "With -respect_private no private or protected member is visited and every public one still is; types named in an omit pragma get no generated descriptor and other types are unaffected; members wrapped in Exclude are ignored by every descriptor yet behave as the plain type. insert-friend adds access declarations to exactly the classes of a file and changes nothing else, so that default descriptors compile and reach private members.",
 ["programs", "configurations"], "all class declarations with access specifiers, pragmas and Exclude members",
 "few fixed classes", ["classdesc.cc", "insert-friend.cc", "classdesc_access.h", "classdesc.h"],
 [("access tracking in the parser", "classdesc.cc"), ("omit list", "classdesc.cc"), ("Exclude<T>", "classdesc.h")])

prop("P20", "All generator modes produce equivalent descriptors",
 "Inline output, library output via -workdir, input from standard input or -i, and member pointers instead of members (-use_mbr_pointers) give descriptors with the same behaviour for every class: the same members, in the same order, with the same serialised bytes.",
 ["programs", "configurations"], "all accepted headers times generator options",
 "each mode is tried on one example", ["classdesc.cc", "use_mbr_pointers.h"],
 [("actionlist output routines", "classdesc.cc"), ("CLASSDESC_USE_OLDSTYLE_MEMBER_OBJECTS", "use_mbr_pointers.h")])

prop("P21", "Functional reflection reports and forwards arguments faithfully",
 "For every function, member function or functor type of any supported arity, Arity, Return, Arg and the is_*_function_ptr traits report its type exactly, and apply, bound methods and buffer-driven calls invoke it exactly once with every argument in its own position, forwarding the return value; calling from a packed argument buffer equals calling directly and packing the result.",
 ["programs", "inputs"], "all signatures of arity 0 to 10 and beyond, const and non-const, void or not, all argument values",
 "tests cover a few arities with fixed arguments", ["function.h", "functiondb.sh", "functiondb.h", "pack_base.h"],
 [("generated functional database", "functiondb.sh"), ("apply, bound_method, callOnBuffer", "function.h")])

prop("P22", "Polymorphic objects keep their dynamic type through copies and serialisation",
 "For every set of registered classes, a factory creates exactly the class registered under a type identifier and throws for unknown ones; cloning gives an equal independent object of the same dynamic type; containers of polymorphic smart pointers round-trip through binary and XML with the dynamic type, value and nullness of every element preserved.",
 ["programs", "histories", "inputs"], "all hierarchies, registration sets and polymorphic containers",
 "one three class example", ["factory.h", "polyBase.h", "polyPackBase.h", "polyXMLBase.h", "polyAccessPack.h", "polyAccessXMLPack.h", "object.h", "poly.h"],
 [("Factory registry", "factory.h"), ("smart pointer pack with type tag", "polyAccessPack.h, polyAccessXMLPack.h"), ("object type table", "object.h")])

prop("P23", "MultiArray indexing addresses each element of the array exactly once",
 "For every rank and shape, a multi-dimensional array covers as many elements as the product of its extents, and indexing along successive dimensions addresses every element exactly once in row order consistently between element access, sub-array views, const access and iteration, and copying or assigning preserves all elements.",
 ["inputs", "histories"], "all ranks and extents", "not covered by the running tests",
 ["multiArray.h"], [("stride computation and sub-array references", "multiArray.h")])

prop("P24", "JSON serialisation round-trips and tolerates schema changes",
 "For every object of supported types, unpacking the JSON produced by json_pack reproduces an equal object, the JSON has one object member per data member holding that member's value with containers as arrays and symbolic enum names, unknown names are ignored and absent names leave the member unchanged.",
 ["inputs"], "all values of described types; all subsets and supersets of names",
 "JSON tests do not run in this environment and use fixed values",
 ["json_pack_base.h", "json_pack_epilogue.h", "polyAccessJsonPack.h", "stringKeyMap_epilogue.h"],
 [("json_pack/json_unpack overloads and json_find", "json_pack_base.h")])

prop("P25", "RESTProcess getters, setters and container commands act on the live object",
 "For every history of REST commands on a registered object, reading a path returns the current value of that attribute, setting a path changes exactly that attribute and returns its new value, method calls run the method once with the given arguments and return its result, and the container commands (@size, @elem, @insert, @erase, @keys) act as the corresponding operations of the container; commands on unknown paths throw and change nothing.",
 ["histories", "inputs"], "all command sequences on described objects",
 "the only test is a fixed transcript, which does not run here",
 ["RESTProcess_base.h", "RESTProcess_epilogue.h"],
 [("RESTProcess registry and path dispatch", "RESTProcess_base.h, RESTProcess_epilogue.h")])

prop("P26", "MPI buffers deliver every message whole, to the right rank",
 "For every number of processes, message contents and lengths (empty included) and every sequence of send/receive, exchange, broadcast, gather and scatter operations, with fixed or variable lengths and buffers reused between operations, each rank receives exactly the bytes addressed to it; gather concatenates in rank order and scatter splits at the marks.",
 ["inputs", "histories", "configurations"], "all message contents and operation sequences on a few ranks",
 "tests run two fixed programs", ["classdescMP.h"],
 [("MPIbuf collectives", "classdescMP.h")])

prop("P27", "Java class files are read and written back unchanged",
 "For every well-formed Java class file, reading it into the class file object and writing it out again yields the identical bytes, and comparing class file objects reports equality exactly when their contents are equal.",
 ["inputs"], "all class files", "one example file, and only where a JDK built it",
 ["javaClass.h", "javaClass_serialisation.h"],
 [("big-endian u2/u4/u8 and constant pool serialisation", "javaClass_serialisation.h")])

prop("P28", "BinStream streams plain data and containers of it in order",
 "For every sequence of plain values, plain structs, arrays and standard containers of plain data streamed into a BinStream over any buffer type, streaming out with the same types gives equal values in order, the container's previous contents are replaced, and the bytes of a plain value are those of raw packing.",
 ["inputs", "histories"], "all sequences of plain values and containers",
 "one fixed sequence", ["pack_stl.h", "pack_base.h"], [("BinStream operators", "pack_stl.h")])

prop("P29", "Type traits classify every type as the language does",
 "For every type, the library's own type traits (fundamental, enum, const, pointer, base-of, convertible, container, sequence, smart pointer and string categories) give the answer the language gives, and each type falls in exactly the category whose handling the descriptors apply.",
 ["programs"], "all type expressions", "one list of static checks",
 ["classdesc.h"], [("home grown C++98 traits and C++11 wrappers", "classdesc.h")])

# what a statement does not cover, appended to it
SCOPE = {
 "P01": "Pointers without a protocol and raw arrays reached through pointers are outside this property (see P05).",
 "P02": "Unordered containers are excepted from the guarantee of identical bytes and from the order (the order of their elements is not part of their value), and so are long double (padding) and NaN.",
 "P04": "Types whose every element takes at least one byte; running out of memory is reported as an exception too.",
 "P05": "A structure has nodes of one type, and each pointer packed at the top level starts a structure of its own.",
 "P07": "A long is a 32 bit XDR long: values outside its range are refused rather than changed; long double has no XDR encoding and is refused.",
 "P08": "A null smart pointer is an absent element, so smart pointers that are elements of containers are non-null.",
 "P10": "An absent smart pointer is null. With missingException set, a missing simple member throws xml_pack_error. Sibling elements of one name keep their relative order.",
 "P11": "A document cut short inside its root element, or with an end tag that does not match, is rejected; the two kinds of input stream agree on every document. Elements are nested less than a thousand deep.",
 "P12": "Single inheritance; no containers or arrays of smart pointers; smart pointers from C++11 on.",
 "P13": "Types that dump supports: no tuples and no sets of pairs.",
 "P14": "Classes that do not hold themselves; smart pointers from C++11 on.",
 "P15": "Values lie within int; enums nested in class templates are excepted. An unknown name has value 0, and an unknown value the empty name.",
 "P16": "Function types are all named <function> and rvalue references as the type they refer to; pointers and references to arrays, allocators and comparators other than the default, and members of class templates are excepted.",
 "P17": "Public bases and members, unless -respect_private is given; constructors, destructors, operators, friends, template and deleted methods are not visited, overloaded methods only with -overload; pointers to functions are visited as methods; bit-fields, reference members, anonymous structs, and classes and enums nested in templates are excepted.",
 "P18": "Headers are not preprocessed; [[ of an attribute stays together.",
 "P19": "Arrays of Exclude are not supported; insert-friend is meant for classes at namespace scope that are not templates.",
 "P20": "With -use_mbr_pointers static constants arrive as pointers; dump does not support member pointers; a -workdir directory serves one header.",
 "P21": "For calls, arguments are passed by value or const reference.",
 "P22": "Objects reached by shared pointers are not cyclic; in XML null elements of containers cannot be written.",
 "P23": "The class is a view of data it is given, its extents are given fastest varying first, and its size() is the outermost extent.",
 "P24": "JSON of another shape (values of other types, arrays of other lengths) is refused by an exception or ignored, without touching memory outside the target. An absent smart pointer, null or an empty object is a null smart pointer; StringKeyMap is an object with its keys for names; with throw_on_error set, missing members and places that do not exist throw json_pack_error.",
 "P26": "Communicators of their own, tags and sources are respected. MPIslave needs methods at the same addresses in all processes; all lengths are equal where const_buffer is set; a buffer is not changed while it is being sent.",
 "P27": "Class files up to Java 17; files cut short are rejected.",
 "P28": "Plain data only: no strings, and no containers as elements of vectors or maps.",
 "P29": "In C++98 is_default_constructible and its like are conservative, as documented.",
}
for p in P:
    if p["id"] in SCOPE: p["statement"] += " " + SCOPE[p["id"]]

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
