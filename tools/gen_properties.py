#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
X = "include/xtypes/"

prop("C01", "A sequence behaves like a vector under every operation history",
 "After any history of push (of native values, of DynamicData, or of one of the sequence's own elements), resize, element writes, copies and assignments, a sequence holds exactly the elements a std::vector would hold after the same history, in the same order, for any content type; resize to a size not bigger than the current one changes nothing and resize to a bigger one keeps the old elements and appends default ones. "
 "A bounded sequence never exceeds its bound: a push or resize beyond it, like an access beyond the current size, is refused with an error and leaves the sequence unchanged. "
 "size(), bounds(), indexing, iteration and as_vector() all agree with that content.",
 ["histories", "inputs"], "all operation histories up to a depth, over content types, bounds and element values",
 "The tests push a fixed ascending run of primitives and one string struct; which capacity the storage has and whether it has been reallocated, copied or resized before the next operation depends on the whole history, and constructed contents (strings, nested sequences, unions) take other code paths than primitives.",
 [X+"SequenceType.hpp", X+"SequenceInstance.hpp", X+"DynamicData.hpp"],
 [("growth, relocation and placement of elements", X+"SequenceInstance.hpp: push, resize, realloc, move_content"), ("bound checks", X+"SequenceType.hpp: push_instance; DynamicData.hpp: push, resize")],
 ["DynamicData::push/resize/size/bounds/operator[]/begin/end/as_vector"],
 [("SequenceInstance", "element block, capacity and size of one sequence value", X+"SequenceInstance.hpp")])

prop("C02", "A map behaves like an associative array under every operation history",
 "After any history of operator[] writes, insert of pairs, copies and assignments, a map holds exactly one value per distinct key, the last one written for it (insert never replaces: it returns true and stores the given pair for a new key, and returns false and changes nothing for a present one), whatever the key type (primitives, enumerations, strings, arrays, sequences, structs, unions) and whatever the order of insertion. "
 "at() returns the value stored under a key and is an error for an absent key, has_key() tells presence, size() counts the keys, iteration visits every pair exactly once. "
 "A bounded map refuses with an error (insert: with false) a new key beyond its bound, and stays unchanged.",
 ["histories", "inputs"], "all operation histories up to a depth over colliding/adjacent key alphabets of every key type, all insertion orders of small key sets, bounds",
 "Entries are stored in key-hash order and shifted on insertion, so correctness depends on the permutation in which keys arrive and on the storage capacity; tests insert a few ascending keys of four key types.",
 [X+"MapType.hpp", X+"MapInstance.hpp", X+"PairType.hpp", X+"DynamicData.hpp"],
 [("binary search by key hash, shifting insert", X+"MapInstance.hpp: find_place, create_place, insert"), ("per-type hash of keys", X+"*Type.hpp: hash")],
 ["DynamicData::operator[](key)/at/insert/has_key/size/begin/end"],
 [("MapInstance", "hash-ordered array of pairs, capacity and size", X+"MapInstance.hpp")])

prop("C03", "A union always has at most one active member, consistent with its discriminator",
 "In every reachable state of a union value, the discriminator holds a label of the active member (for a default member without labels: a value that is no other member's label), current_case() names that member and its content is a valid value of its type; a union without default starts with no member active and one with a default starts with that member default-constructed. "
 "Accessing a member by name through a writable reference activates it (default-constructed if another one or none was active, unchanged if it was already active); setting the discriminator to another label of the active member keeps the content; setting it to a label of a different member than the active one is refused with an error; reading a member that is not active is refused with an error; a value that is nobody's label never changes anything in a union without default. "
 "This holds for every permitted discriminator type, including enumerations of each width and aliases.",
 ["histories", "inputs", "configurations"], "all histories of member access, discriminator writes, copies and assignments up to a depth, over discriminator types, label layouts and member types",
 "Tests walk a few fixed paths with bool, char and 32-bit enum discriminators; the active member is encoded in the discriminator bytes only, so every (state, operation, discriminator width, label value) combination is its own case.",
 [X+"UnionType.hpp", X+"DynamicData.hpp"],
 [("label bookkeeping and activation", X+"UnionType.hpp: select_disc, select_case, activate_member, current_label"), ("access rules", X+"DynamicData.hpp: operator_at_impl, d, current_case")],
 ["DynamicData::operator[]/get_member/d/current_case"],
 [("discriminator", "first bytes of the instance: selects the active member", X+"UnionType.hpp")])

prop("C04", "Copies and assignments are deep, equal and independent",
 "Constructing or assigning a DynamicData (or a writable reference) from another DynamicData or reference of the same type - by copy, by move, from a readable or writable reference, into a struct member, array element, sequence element or map value - yields a value equal to the source at that moment. "
 "Afterwards any modification or destruction of either side leaves the other unchanged, and the source of a copy is unchanged. "
 "Assigning a value to itself, directly or through references to it, changes nothing.",
 ["inputs", "histories", "programs"], "every type of a structural universe x values x way of copying x every single mutation of either side",
 "Independence must hold for every type nesting and every leaf that could be shared; tests copy a handful of values and mostly never mutate afterwards, and none copies from a reference.",
 [X+"DynamicData.hpp", X+"*Type.hpp"],
 [("copy_instance / move_instance of every type", X+"*Type.hpp"), ("constructors and assignments", X+"DynamicData.hpp")],
 ["DynamicData constructors and operator=, WritableDynamicDataRef::operator=, push, operator[]"])

prop("C05", "No leak, double free or out-of-bounds access over any history",
 "For every history of creating, copying, moving, assigning, modifying and destroying DynamicData values of any type, including refused operations, each dynamically created content is released exactly once, and no operation reads or writes outside live storage. "
 "After all values of a history are gone, no memory obtained during it remains allocated.",
 ["histories", "inputs"], "all histories over a few value slots up to a depth, for every type of a structural universe",
 "Ownership errors show only for particular type nestings and operation orders and are invisible to value-comparing tests; the suite is not run under a memory checker here.",
 [X+"DynamicData.hpp", X+"SequenceInstance.hpp", X+"MapInstance.hpp", X+"StringType.hpp", X+"UnionType.hpp", X+"ArrayType.hpp", X+"StructType.hpp"],
 [("construct/copy/move/destroy protocol", X+"Instanceable.hpp and all types"), ("instance ownership", X+"DynamicData.hpp: DynamicData")],
 ["allocation balance and AddressSanitizer while public operations run"])

prop("C06", "Equality is value equality, and equal values hash equally",
 "For two values of the same type, == is true exactly when they have the same content (same leaves, same sizes, same keys with same values, same active union member and discriminator), whatever histories produced them; != is its negation, and the relation is reflexive, symmetric and transitive. "
 "Equal values have equal hash(), and hash() depends on every part of the content, so that distinct small values of a type are told apart by it.",
 ["inputs", "histories"], "all pairs (and triples) of values of a per-type value alphabet, each value built by several different histories",
 "Tests compare a few values built the same way; storage left over from other histories (capacity, padding, inactive union bytes, insertion order) must not matter.",
 [X+"Instanceable.hpp", X+"DynamicData.hpp", X+"SequenceInstance.hpp", X+"MapInstance.hpp", X+"UnionType.hpp", X+"*Type.hpp"],
 [("compare_instance and hash of every type", X+"*Type.hpp"), ("hash64/hash_combine", X+"Instanceable.hpp")],
 ["DynamicData::operator==, operator!=, hash"])

prop("C07", "A compatible copy keeps every value both types can represent",
 "If a type is compatible with another (is_compatible is not NONE; for maps: and their keys and values are of the same types), a DynamicData of the first can be created from any value of the second: primitives are converted as C++ converts them, strings and sequences are cut at the target's bound, arrays keep the common prefix and structs the common leading members (the rest is default), unions keep the active member, a one-member struct stands for its member, and aliases stand for what they name. "
 "The result is a fully usable, independent value of the target type, the source is unchanged. "
 "If the types are not compatible the construction is refused with an error and has no effect; assignment between types is accepted only when they are compatible as EQUALS, and then converts values in the same way.",
 ["inputs", "programs"], "all ordered pairs of a type universe x values of the source type",
 "The conversion is a product of two type trees and a value; tests try a dozen same-shape pairs.",
 [X+"*Type.hpp", X+"DynamicData.hpp", X+"SequenceInstance.hpp", X+"MapInstance.hpp"],
 [("copy_instance_from_type of every type", X+"*Type.hpp"), ("compatible-copy constructor", X+"DynamicData.hpp")],
 ["DynamicData(const ReadableDynamicDataRef&, const DynamicType&), DynamicData::operator="])

prop("C08", "is_compatible reports exactly the differences between two types",
 "is_compatible is EQUALS for any type with itself and with an alias of it, and its result contains precisely the flags of the differences between the two types: primitive sign and width, sequence/array/string/map bounds, member names and member count, accumulated over all nested members and contents. "
 "It is NONE exactly when some corresponding parts have no common kind. "
 "A struct with exactly one member is compared as that member's type.",
 ["programs"], "all ordered pairs of a type universe built by closing base types under every constructor",
 "The relation is defined on pairs of type trees; tests assert about fifty pairs.",
 [X+"*Type.hpp", X+"TypeConsistency.hpp"],
 [("is_compatible of every type", X+"*Type.hpp"), ("flag algebra", X+"TypeConsistency.hpp")],
 ["DynamicType::is_compatible"])

prop("C09", "Types compose by value and lay out members without overlap",
 "A type used to build another one (as member, content, key, discriminator, alias target or parent), or used to create data, is captured at that moment: later changes of the original - adding members, cases or enumerators, renaming it - affect neither the composite nor existing data. "
 "Members keep their definition order, a derived struct starts with all its ancestors' members, names are unique (a duplicate is refused with an error and changes nothing), and members() / member(name) / member(index) / has_member() agree. "
 "Each member occupies its own bytes: offsets are increasing, parts never overlap and memory_size() covers them all (unions: the largest case plus the discriminator).",
 ["programs", "histories"], "all sequences of type-building steps up to a depth over a set of member types and all subsequent modifications of the building blocks",
 "Insulation between types must hold for each way of embedding and any later mutation; tests build fixed types and never modify a building block afterwards.",
 [X+"DynamicType.hpp", X+"Member.hpp", X+"AggregationType.hpp", X+"StructType.hpp", X+"UnionType.hpp", X+"AliasType.hpp"],
 [("copy-on-embed pointer", X+"DynamicType.hpp: Ptr"), ("member insertion, parent flattening and offsets", X+"AggregationType.hpp, StructType.hpp")],
 ["StructType/UnionType/EnumerationType building API, members(), memory_size(), DynamicData::type()"])

prop("C10", "Arithmetic, logic and casts agree with native C++",
 "For every primitive type and operand values on which native C++ is defined, each operator DynamicData offers (unary -, ~, !, ++, --; binary + - * / % << >> & | ^ && || < > <= >=; compound assignments with DynamicData and with native operands) yields the value, and for arithmetic operators the type, that the same operation on native values of the data's own type yields, and modifies nothing but the target of a modifying operator. "
 "cast<T>() equals static_cast<T> of the stored value and cast<std::string>() prints it as std::to_string does. "
 "An operator not offered for a type is refused with an error.",
 ["inputs"], "every primitive type x operator x operand pairs: all 65536 pairs for 8-bit types, dense boundary alphabets for wider ones",
 "Tests use two or three random-looking operand pairs per operator; the implementation dispatches on every kind separately, so one wrong arm affects one (type, operator) combination only.",
 [X+"DynamicData.hpp", X+"DynamicDataImpl.hpp"],
 [("per-kind dispatch", X+"DynamicDataImpl.hpp macros")],
 ["DynamicData operators, cast<T>()"])

prop("C11", "Misuse is refused and leaves the data unchanged",
 "With exceptions enabled, every access that does not fit the data's type or state - wrong native type, unknown or unavailable member, index beyond the size, absent key, container operation on a non-container, pushing an element of the wrong native type, exceeding a bound, assigning incompatible data, invalid enumeration value - throws std::runtime_error instead of performing it. "
 "After the refused operation the data has exactly the value it had before and remains fully usable.",
 ["inputs", "histories"], "every operation of the access API x every type of a structural universe x argument alphabet",
 "Each (operation, type kind) pair is a separate guard; tests assert about thirty of them and do not look at the data afterwards.",
 [X+"Assert.hpp", X+"DynamicData.hpp", X+"*Type.hpp"],
 [("guards of the access functions", X+"DynamicData.hpp: xtypes_assert")],
 ["all DynamicData access functions"])

prop("C12", "Traversal visits exactly the nodes of a value, once, in order",
 "for_each on a value visits, parents before children, one node for the value itself and one for every struct member, array/sequence element, map pair (with its key and value) and the active union member, recursively and in index order; each node reports its depth, parent, index or member, and data that is the very data reached by member or index access. "
 "Iterating a collection or the items of a structure yields the same elements in the same order (the items of a union are its discriminator and all its members); writes through writable nodes, iterators and items change exactly the visited element; throwing a bool from the visitor stops the traversal and is returned. "
 "for_each on a type visits every component type once in the same manner, and to_string() renders one line per visited node of every value made of well-formed text, indented by depth, with the member or index it comes from, the name of its type and, if it is a number or a string, its value.",
 ["inputs", "programs"], "all values of a per-type alphabet over a structural type universe, and every prefix at which the visitor can stop",
 "The visited set is a function of an arbitrary type/value tree; tests traverse two or three fixed structures.",
 [X+"DynamicData.hpp", X+"DynamicDataImpl.hpp", X+"Instanceable.hpp", X+"*Type.hpp"],
 [("for_each_instance / for_each_type of every type", X+"*Type.hpp"), ("iterators and nodes", X+"DynamicData.hpp"), ("rendering", X+"DynamicDataImpl.hpp: to_string")],
 ["for_each, begin/end, items/citems, to_string, DynamicType::for_each"])

prop("C13", "Enumerations hold their declared values and nothing else",
 "For any sequence of enumerator definitions, an enumeration of any width contains exactly the accepted ones with the value given or, when none is given, the previous value plus one (starting at zero); a definition whose name is taken or whose value is not greater than the last one - including after the maximum value was used - is refused with an error and changes nothing. "
 "value(), has_enumerator(), enumerator(), is_allowed_value(), enumerators() and copies of the type agree with that table. "
 "Data of the enumeration accepts assignment of exactly the declared values of the enumeration's own width and refuses all others unchanged.",
 ["histories", "inputs"], "all definition sequences up to a depth over names and values near 0 and the maximum, for 8, 16 and 32-bit enumerations; all 256 values for 8-bit data",
 "Tests define one enumeration per case with two or three enumerators.",
 [X+"EnumerationType.hpp", X+"EnumeratedType.hpp", X+"DynamicData.hpp"],
 [("next value bookkeeping", X+"EnumerationType.hpp: add_enumerator"), ("allowed values", X+"EnumeratedType.hpp; DynamicData.hpp: value")],
 ["EnumerationType API, DynamicData::value/operator="])

prop("C14", "A module tree resolves each name to the symbol its scope rules determine",
 "In any tree of modules holding structs, unions, enumerations, aliases and constants, looking up a name from any module finds the symbol that IDL scoping gives it: a simple name is looked for in that module and then in the enclosing ones, stopping at the nearest that holds any symbol of that name (of whatever kind, a submodule included); a relative scoped name (A::x) is followed from the nearest such module with a submodule of its first name, and not looked for further if that path fails; an absolute name (::A::x) is followed from the root. has_X is true exactly when X() finds it, and lookups change nothing. "
 "Adding a symbol succeeds exactly when its simple name is free for its kind in that module (or replacement is requested), stores a type whose name is the module's scope plus its own, and otherwise leaves the module unchanged; submodules, symbol counts and get_all_types() report exactly what was added.",
 ["histories", "programs", "inputs"], "all symbol placements in small module trees with colliding names x all lookups from all modules; all add/lookup histories up to a depth",
 "Resolution depends on which of several equally named symbols/modules exist in which enclosing scopes; the tests only reach it through a few parsed files and the generator.",
 [X+"idl/Module.hpp", X+"idl/Type.hpp"],
 [("scope resolution", X+"idl/Module.hpp: resolve_scope"), ("symbol tables", X+"idl/Module.hpp")],
 ["idl::Module API"])

prop("C15", "Generated IDL declares every symbol of a module once, before its use",
 "The IDL text generated for a module contains exactly one definition for every struct, union, enumeration, alias and constant in it and its submodules, within the module it belongs to, and each definition names the same members, types, bounds, dimensions, labels, parent and values as the symbol. "
 "Every user-defined type named in the text is declared earlier in the text (at least forward-declared where IDL allows it) under a name that IDL scoping resolves to it. "
 "Generating changes nothing in the module and gives the same text again. "
 "This is for modules that IDL can express: no two symbols of a module share a name, no symbol is hidden where it is used, arrays inside collections are named by an alias, constants have resolved types; a tree whose modules could only be written in several pieces (submodules depending on each other both ways) is refused with an error.",
 ["programs", "inputs"], "all small modules over a symbol universe with every dependency edge kind, all placements in up to two submodules",
 "Declaration order is computed from the dependency graph of the module; tests generate four or five fixed modules and compare the text.",
 [X+"idl/generator.hpp", X+"idl/generator_deptree.hpp"],
 [("dependency tree and ordering", X+"idl/generator_deptree.hpp"), ("rendering", X+"idl/generator.hpp")],
 ["idl::generate"])

prop("C16", "String code conversion is exact for every text",
 "Converting a text between UTF-8 and UTF-16 gives exactly the standard encoding of the same code points for every sequence of valid code points of any length, so converting back returns the original. "
 "A malformed input (truncated or invalid sequence, unpaired surrogate) is refused with an error; no input makes the conversion loop forever or produce other text.",
 ["inputs"], "every Unicode scalar value alone and at every alignment relative to the conversion block boundary; all strings over a length-class alphabet up to a length crossing the boundary; all malformed sequences of a bounded alphabet",
 "The conversion works in fixed-size blocks, so whether a multi-unit character straddles a block boundary depends on the whole prefix; tests convert three short literals.",
 [X+"StringConversion.hpp"],
 [("blockwise conversion loop", X+"StringConversion.hpp: code_conversion_tool")],
 ["code_conversion_tool, to_string of wide data"])

prop("C17", "Reading never modifies shared data or types",
 "No operation of the read-only interface (readable references, const data, member and index access, at, d, current_case, comparison, hash, conversion, iteration, for_each, to_string, copying from, compatibility queries on types) writes to the data or to the type it is applied to, whether it succeeds or is refused. "
 "Hence any number of threads may read the same data and create values of the same type concurrently, in any interleaving, with the results each would get alone.",
 ["schedules", "inputs"], "every read operation x every type of a structural universe x values, with every write to the shared storage trapped; plus concurrent pairs of readers",
 "Single-threaded tests cannot see a hidden write on a read path, let alone all interleavings of two of them.",
 [X+"DynamicData.hpp", X+"*Type.hpp"],
 [("const access paths", X+"DynamicData.hpp: ReadableDynamicDataRef")],
 ["page protection of the instance and type storage while the read-only API runs; ThreadSanitizer"])

prop("C18", "An alias is indistinguishable from the type it names",
 "Data created from an alias (of any depth, at the top or anywhere inside a composite type) has the aliased type, and every operation on it - access, assignment, container operations, union discrimination, copy, comparison, hash, conversion, traversal, iteration - has the same outcome as on data of the aliased type itself. "
 "The alias keeps its own name and get()/rget() lead to the immediate and the final target.",
 ["programs", "inputs", "histories"], "every type of a structural universe with aliases of depth 1..3 substituted at every position x values x operations",
 "Aliases must be looked through at each of the places where a kind is inspected; tests cover primitives and one string.",
 [X+"AliasType.hpp", X+"DynamicData.hpp", X+"*Type.hpp"],
 [("delegation and resolution", X+"AliasType.hpp; DynamicData.hpp: ReadableDynamicDataRef constructor"), ("alias unwrapping in copy/compat", X+"*Type.hpp")],
 ["DynamicData on alias types"])

prop("C19", "A written leaf reads back exactly and nothing else changes",
 "New data of any type is fully default-valued (zeros, empty strings, sequences and maps; the default member, if any, of a union). "
 "Writing a value to any leaf of any data, by whichever access path (member name, index, iterator, items, node, value(), assignment), makes reads of that leaf by every access path return exactly that value - strings cut at their bound - and leaves every other leaf unchanged.",
 ["inputs", "programs", "histories"], "every type of a structural universe x every leaf x value alphabet x pairs of access paths; all two-write histories",
 "Non-interference ranges over all pairs of leaves of arbitrary type trees; tests write and read the same leaf of fixed structures.",
 [X+"DynamicData.hpp", X+"PrimitiveType.hpp", X+"StringType.hpp", X+"StructType.hpp", X+"ArrayType.hpp"],
 [("offset based access", X+"DynamicData.hpp"), ("construct_instance of every type", X+"*Type.hpp")],
 ["DynamicData access functions"])

prop("C20", "Running out of memory changes nothing",
 "When memory runs out at any point of an operation - construction, copy or conversion of data, assignment, writing a value, push, resize, insertion of a key or pair, activation or selection of a union member, reading, comparison, hashing, printing, or building a type (adding members, cases or enumerators; copying types; arrays, sequences, maps, aliases) - the operation ends with std::bad_alloc and "
 "its target has the value, or is the type, that it had before (between the two steps of creating an element or member and assigning it, the new one may be there with its default value), its other operands are unchanged, nothing is leaked, released twice or used after its release, and the same operation succeeds once there is memory.",
 ["fault_sequences", "inputs", "histories"], "every allocation of every operation made to fail, over a structural universe of types x values x operations; two faults in a row over all pairs of operations",
 "The failing allocation can be any of those of an operation and the damage is only visible afterwards; no test makes an allocation fail.",
 [X+"DynamicData.hpp", X+"SequenceInstance.hpp", X+"MapInstance.hpp", X+"*Type.hpp"],
 [("construction and conversion of data", X+"DynamicData.hpp: DynamicData, ConvertedInstance, assign, value"), ("partially built instances", X+"ArrayType.hpp, StructType.hpp, PairType.hpp: construct_instance, copy_instance, copy_instance_from_type"),
  ("growth", X+"SequenceInstance.hpp, MapInstance.hpp: realloc, push, resize, insert, copy_from"), ("unions", X+"UnionType.hpp: activate_member, select_disc, add_case_member"), ("building types", X+"AggregationType.hpp: insert_member")],
 ["DynamicData", "DynamicType"])

prop("C21", "Parsing an IDL text declares exactly what it describes",
 "Parsing an IDL text puts into the module tree exactly the structs, unions, enumerations, aliases and constants it declares, in the modules it declares them in, with its members, types (resolved by IDL scoping), dimensions, bounds, labels, default, parents and values: every text generated for a module gives back the module and the same text. "
 "Integer, floating point, character, string and boolean literals have their written value in every notation; constant expressions have the value given by IDL precedence and left associativity, wherever they are used (constants, labels, bounds, dimensions). "
 "Spaces and comments between tokens change nothing, nor does going through the preprocessor a text without directives; a malformed text or one naming unknown types is refused with an error, without looping or invalid memory accesses, and leaves the parser fit for the next text; parsing in pieces into one context accumulates the same as parsing at once.",
 ["programs", "inputs", "histories"], "all modules of the generator's universe parsed back; bounded-exhaustive literals, expressions, label sets, dimensions, token layouts, malformations and histories of texts",
 "The meaning of a text depends on every combination of notation, nesting, scope and order; tests parse some thirty fixed texts.",
 [X+"idl/parser.hpp", X+"idl/grammar.hpp", X+"idl/Module.hpp"],
 [("syntax", X+"idl/grammar.hpp"), ("declarations, scoping, literals and expressions", X+"idl/parser.hpp: Parser"), ("preprocessing", X+"idl/parser.hpp: preprocess")],
 ["idl::parse, Parser, Context"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
