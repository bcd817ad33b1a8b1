#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
SET="enumset/src/set.rs"; ARR="enumset/src/repr/array.rs"; PRIM="enumset/src/repr/primitive.rs"
MAC="enumset/src/macros.rs"; DER="enumset_derive/src/lib.rs"; TR="enumset/src/traits.rs"; LIB="enumset/src/lib.rs"
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
BITS=("bits of the set","bit d is set iff the variant with discriminant d is a member",SET+" (EnumSet), "+ARR+" (ArrayRepr)")

p("C01","A set follows the mathematical set model under any history of updates",
 "After any sequence of insert, remove, clear, insert_all, remove_all, extend and assigning operators, an EnumSet contains exactly the variants a mathematical set would contain, as seen through contains, len, is_empty and iteration. insert and remove report correctly whether they changed the set, and no operation changes any other set, its arguments, or a copy taken earlier.",
 ["histories","inputs","configurations"],"every enum accepted by the derive (any discriminants, any storage width), every start set, every finite sequence of updates",
 "The tests replay one fixed sequence over the variants A..H of 15 enums; most words of the multi-word sets are never touched and no test looks at members other than those it changed.",
 [SET,ARR,PRIM,DER],[("insert/remove/insert_all/remove_all/clear",SET),("add_bit/remove_bit/has_bit/count_ones/is_empty",PRIM+", "+ARR),("enum_into_u32 generated by the derive",DER)],[BITS],["EnumSet public API after every step of a recorded history"])

p("C02","Set algebra and set relations agree with membership for every pair of sets",
 "For all sets of the same enum, union, intersection, difference, symmetrical difference and complement, in every spelling (methods, operators, assigning operators, and operators with bare variants on either side), contain exactly the variants that membership in the operands dictates. is_subset, is_superset, is_disjoint, contains, len, is_empty, all, empty and only agree with membership in the same way.",
 ["inputs","configurations"],"every enum accepted by the derive, all pairs of subsets of its variants (and variants) as operands",
 "The tests check a handful of hand-picked operand pairs over low variants; the number of operand pairs is exponential in the number of variants and the multi-word and mixed variant/set spellings are hardly exercised.",
 [SET,ARR,PRIM,DER],[("union/intersection/difference/symmetrical_difference/complement and operator impls",SET),("bit operations of the storage types",ARR),("operator impls generated for the enum",DER)],[BITS],["results and operands of every operation"])

p("C03","No safe operation ever yields a set with an undeclared member",
 "Whatever safe operations produced it (constants, algebra, complement, conversions from arbitrary integers, arrays and slices, truncating conversions, deserialization of arbitrary data), a set only has members that are declared variants: its numeric form has no bit that is not the discriminant of a variant, and it never exceeds all() or variant_count(). Checked conversions accept an input exactly when it has no undeclared bit; truncating ones drop exactly the undeclared bits.",
 ["inputs","histories","configurations"],"every enum (dense and sparse), every finite composition of safe set-producing operations on arbitrary raw inputs",
 "Undeclared bits only appear for particular combinations of sparse enum, storage width and operation order; the tests check complement and a few invalid masks on single enums and never compose producers.",
 [SET,ARR,PRIM,DER],[("masking with the set of valid bits",SET+", "+DER),("all_variants/variant_map",DER)],[BITS],["raw words of every set produced by a random composition"])

p("C04","Iteration yields each member exactly once, in order, from both ends",
 "Iterating a set yields exactly its members in ascending discriminant order, and descending from the back; any interleaving of next, next_back, nth, nth_back and the other iterator adaptors yields each member exactly once, then only None from both ends. size_hint and len are exact after every step, a cloned iterator continues independently, and an iterator is a snapshot that later changes of the set do not affect.",
 ["histories","inputs","configurations"],"every enum, every set, every interleaving of front and back iterator operations",
 "The tests only iterate in one direction at a time over low variants; the interesting state (front and back position inside the same or neighbouring words, exhausted from either end) is reached only by interleavings.",
 [SET,ARR,PRIM],[("EnumSetIter",SET),("ArrayIter idx_f/idx_r/done",ARR),("PrimitiveIter",PRIM)],[("front/back cursors","word currently drained from the front/back",ARR),BITS],["every value returned by the iterator, and size_hint/len after every step"])

p("C05","Integer conversions are exact, refuse, or truncate as documented",
 "For u8, u16, u32, u64, u128 and usize, a set converts to the integer whose bit d is set iff the variant with discriminant d is a member: the checked form returns it iff it fits (the panicking form panics otherwise), the truncating form returns its low bits. Conversely an integer converts to the set of the variants whose bits are set: the checked form refuses (the panicking form panics) iff some set bit belongs to no variant, the truncating form ignores such bits, and both directions round-trip.",
 ["inputs","configurations"],"every enum and storage width, every set, every integer of each of the six types",
 "Conversion pairs form a matrix of storage width x integer width x (declared, undeclared, overflowing) bit positions; tests sample the value 7 and one invalid bit per type.",
 [SET,ARR,PRIM],[("conversion_impls!",SET),("from_*/to_*/_opt of the storage types",PRIM+", "+ARR)],[BITS],["integer results, None and panics of each conversion"])

p("C06","Array, slice and Vec conversions are exact, refuse, or truncate as documented",
 "For every array or slice length, conversion of a set to u64 words stores the variant with discriminant n in bit n%64 of word n/64 and zeroes every further word; the checked form succeeds iff no member falls outside (leaving the destination untouched otherwise, the panicking form panics), the truncating form drops members outside. Converting words to a set yields the variants whose bits are set: the checked form refuses iff any bit (in any word, also beyond the set's own length) belongs to no variant, the truncating form ignores such bits; to_vec, as_array and copy_into_slice agree and round-trip.",
 ["inputs","configurations"],"every enum and storage width, every set, every array/slice length shorter, equal or longer than the storage, arbitrary word contents and destination contents",
 "The tests use lengths 0..5 with the value 7 in zeroed destinations; stale destination words, bits in the last word that still fits and lengths relative to the storage size are not sampled.",
 [SET,ARR,PRIM],[("as_array/from_array/copy_into_slice/from_slice/to_vec families",SET),("to_u64_array/to_u64_slice/from_u64_slice and _opt forms",ARR+", "+PRIM)],[BITS],["word contents, None and panics of each conversion"])

p("C07","Equality, hashing and ordering depend on the members only and are coherent",
 "Two sets (or a set and a bare variant, on either side) compare equal iff they have the same members, however they were produced; equal sets have equal hashes, and clones and copies are equal. A variant equals itself and no other. Comparison is a total order consistent with equality (antisymmetric, transitive, agreeing across cmp, partial_cmp, <, <=, >, >=, min and max), so hashed and ordered collections of sets behave as collections keyed by membership.",
 ["inputs","histories","configurations"],"every enum, every pair and triple of sets reached along different construction paths",
 "Tests insert five fixed sets into a HashSet and a BTreeSet; transitivity, hash agreement across construction paths and comparison of sets that differ only in high words are not sampled.",
 [SET,ARR,DER],[("PartialEq/Eq/Hash/Ord impls of EnumSet",SET),("derived impls of ArrayRepr",ARR),("PartialEq generated for the enum",DER)],[BITS],["comparison results, hasher input streams, contents of std collections"])

p("C08","An explicit repr fixes the in-memory and FFI representation of the set",
 "For an enum with #[enumset(repr = \"u8|u16|u32|u64|u128\")], EnumSet has exactly the size, alignment, memory contents and calling convention of that integer, with bit d standing for the variant with discriminant d, so it can be passed to and from foreign code by value and by pointer. as_repr returns that integer, from_repr/try_from_repr accept exactly the integers without undeclared bits, from_repr_truncated drops undeclared bits, and as_repr is usable in constants.",
 ["inputs","configurations"],"every enum with an explicit repr that fits (including reprs wider than needed), every set and every integer of that type",
 "One enum with repr u16 and one set is tested, without any foreign call and without from_repr, try_from_repr or from_repr_truncated.",
 [SET,TR,DER],[("repr(transparent) EnumSet",SET),("EnumSetTypeWithRepr impl generated by the derive",DER),("as_repr/from_repr family",SET)],[BITS],["memory of sets, values crossing a C function boundary"])

p("C09","Serialization round-trips every set in every format and representation",
 "With the serde feature, deserializing what was serialized for any set yields an equal set, for every serialize_repr (u8, u16, u32, u64, u128, array, list, map and the default), with and without serialize_deny_unknown, in self-describing and non-self-describing formats, and regardless of the storage used in memory. Serializing equal sets gives identical output and never panics; errors of the underlying serializer are propagated.",
 ["inputs","configurations","fault_sequences"],"every enum x serialize_repr x deny_unknown x in-memory repr, every set, several formats, a serializer failing at any call",
 "The tests round-trip nine sets of eight-variant enums in two formats; most combinations of options (for instance deny_unknown with array, or integers over array storage) were never even compiled.",
 [DER,SET],[("serialize/deserialize generated per serialize_repr",DER),("Serialize/Deserialize impls",SET)],[BITS],["serialized bytes/text/tokens and the deserialized set"])

p("C10","The serialized form is the documented one for each representation",
 "With the serde feature, a set serializes as the documented data: for an integer serialize_repr one integer of exactly that type holding the numeric form, by default the smallest integer type that fits the largest variant (an array when none fits); for array a list of u64 words holding the array form; for list a list of exactly the member variants; for map a map whose true entries are exactly the members (the deprecated options serialize_as_list and serialize_as_map select the same two forms). Deserialization accepts every such document: list elements in any order or repeated, map entries set to false, word lists that are shorter or longer than the set's own, including data written for a smaller or larger version of the enum.",
 ["inputs","configurations"],"every enum and serialize option, every set, every well-formed document of the selected representation",
 "Tests fix the encodings of three small sets; the default choice at each width boundary, word lists of other lengths and evolution of the enum are not covered.",
 [DER],[("serde_repr selection",DER),("per-repr serialize/deserialize bodies",DER)],[BITS],["sequence of serde data-model calls recorded by a token serializer, documents fed to a token deserializer"])

p("C11","Deserializing untrusted data never panics and treats unknown bits as configured",
 "Deserializing arbitrary input either fails with an error or yields a set that only has declared variants; it never panics, whatever the input, its length or errors in its middle, and errors of the underlying deserializer are propagated. Unknown bits that fit the serialized type are silently dropped by default and make deserialization fail iff one of them is set when serialize_deny_unknown is given; unknown variants of the list and map forms are errors.",
 ["inputs","configurations","fault_sequences"],"every enum and serialize option, arbitrary integers, word lists, documents of the wrong shape, corrupted byte strings, and a deserializer failing at any point",
 "One all-ones u128 is tested against two eight-variant enums; unknown bits in word lists, extra words and mid-stream errors were not exercised (and did panic or not compile).",
 [DER],[("masking and check_unknown/check_extra in generated deserializers",DER)],[BITS],["result (set, error or panic) of every deserialization"])

p("C12","Compile-time set macros compute what the run-time operations compute",
 "enum_set!, enum_set_union!, enum_set_intersection!, enum_set_difference!, enum_set_symmetric_difference! and enum_set_complement!, used in constants with any number of variants and constant sets as arguments, and the constants new, empty, all, variant_count and bit_width, evaluate at compile time to exactly the set (or number) the corresponding run-time operations give. The constants are usable as statics, patterns and arguments of further macros.",
 ["programs","inputs","configurations"],"every enum and storage width, every constant expression built from the macros",
 "Tests evaluate ten fixed expressions over the first five variants; the per-enum constant helpers for multi-word storage, argument counts above three and high variants are not covered.",
 [MAC,DER,SET],[("macros",MAC),("const_only/const_union/const_intersection/const_symmetric_difference/const_complement generated by the derive",DER)],[BITS],["value of each constant in a generated program, compared at run time"])

p("C13","The derive accepts every documented enum and describes it faithfully",
 "Every fieldless enum within the documented limits (any order of explicit decimal, hex, octal or binary discriminants mixed with implicit ones, empty and single-variant enums, any integer repr, any combination of the documented options) compiles, and its sets have exactly one member per variant at the position of its discriminant: all(), variant_count(), bit_width(), the size of the set and conversion of each variant into and out of a set agree with the definition. Options have the documented effect: no_ops and no_super_impls suppress exactly the impls they name, and the set's storage is as compact as documented.",
 ["programs","configurations"],"every enum definition and combination of documented derive options",
 "The space of definitions is unbounded; the tests derive about thirty fixed enums, mostly dense ones declared in ascending order and with few option combinations.",
 [DER,LIB],[("push_variant discriminant tracking",DER),("internal_repr/serde_repr selection and validate",DER),("enum_from_u32/enum_into_u32",DER)],[("cur_discrim/max_discrim","discriminant assigned to the next variant / largest so far",DER)],["compiler outcome for each generated definition and run-time metadata of the compiled enum"])

p("C14","The derive and macros reject what the documentation rules out at compile time",
 "A program fails to compile if it derives on a struct, union, generic enum or enum with data, uses a negative, non-literal or too large discriminant, names an unknown or repeated option or representation, or asks for an in-memory or serialized integer representation that cannot hold the largest discriminant; so do mixing sets of different enums in operators or macros, using the repr conversions without an explicit integer repr, using operators suppressed by no_ops, calling an unchecked conversion outside unsafe code, and forming a set of a type that does not derive EnumSetType. The closest permitted program compiles.",
 ["programs","configurations"],"every enum definition and option combination outside the documented limits, each next to its closest permitted variant",
 "The compile-fail tests fix sixteen programs; acceptance of a slightly different bad definition (another boundary, another option, another position of the offending variant) would silently give sets that drop or merge members.",
 [DER,MAC,SET],[("validation in derive_enum_set_type_0, push_variant, validate",DER),("type parameters of macros and operators",MAC+", "+SET)],[],["compiler outcome for each generated program"])

p("C15","Safe use never causes undefined behaviour or produces an invalid enum value",
 "No sequence of safe calls on sets, their iterators, conversions and serialization has undefined behaviour, for any enum layout (any integer repr, sparse or dense) and on any target (32 or 64 bit, either endianness); every variant handed out is one of the declared variants. The unchecked conversions are sound whenever the bits given to them are all declared, and unspecified for others only.",
 ["inputs","histories","configurations"],"every enum layout, every sequence of API calls, several target architectures",
 "The unsafe conversion from bit position to variant depends on the layout the compiler chose for each enum; undefined behaviour usually passes ordinary tests unnoticed.",
 [DER,SET,ARR,PRIM],[("enum_from_u32 generated by the derive",DER),("EnumSetIter",SET),("iter implementations that must only return set bits",ARR+", "+PRIM)],[],["Miri and AddressSanitizer reports over the executed workload, discriminants of returned variants"])

p("C16","Textual output lists exactly the members, in order",
 "Debug of a set is EnumSet(...) around the Debug output of its members in ascending discriminant order, separated by \" | \", and Display is the same list of Display outputs without the wrapper; nothing else is printed for any flags, and each member is rendered as it would render itself under the same flags. Errors of the output or of a member's formatter are propagated.",
 ["inputs","configurations","fault_sequences"],"every enum, every set, every formatting flag, an output that fails at any write",
 "Tests print one three-element set per enum; empty sets, high variants, flags and failing writers are not covered.",
 [SET],[("Debug and Display impls of EnumSet",SET)],[BITS],["text produced, fmt::Result under a failing writer"])

p("C17","Building sets from collections is the union of what was supplied",
 "Collecting, extending from or summing any iterator of variants or of sets (by value or by reference for sums), and From, Default and IntoIterator, give exactly the union of the starting set and everything the iterator yielded, with any order, repetition, length, size_hint or adaptor. An iterator that panics leaves a set holding what it held before plus some of the items already yielded.",
 ["inputs","histories","fault_sequences"],"every enum, every sequence of variants or sets, iterators with arbitrary size hints and panicking iterators",
 "Tests sum six variants and collect one set; empty and repeated sequences, high variants, inaccurate size hints and panics are not covered.",
 [SET],[("Extend/FromIterator/Sum/From/Default/IntoIterator impls",SET)],[BITS],["resulting set after each construction"])

p("C18","Generated code works in every documented environment and feature set",
 "Programs using the derive and the macros compile and give the same results under every combination of the serde, alloc and proc-macro-crate features, in no_std crates (without an allocator unless alloc is on), with the crate renamed (crate_name, or Cargo renaming with proc-macro-crate), without any enumset item imported, and when the user's scope defines items or macros whose names coincide with prelude, std or serde names (names of primitive types aside), with enums or variants of any name (except names beginning with two underscores), visibility or nesting.",
 ["programs","configurations"],"every feature combination, every environment of the deriving item",
 "The tests fix four environments; hygiene failures depend on the combination of feature, serialize option, storage kind and user scope.",
 [DER,MAC,LIB,"enumset/Cargo.toml"],[("crate path selection and fully qualified paths in generated code",DER),("$crate paths in macros",MAC),("feature gates",LIB)],[],["compiler outcome and run-time results of programs generated per environment"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
