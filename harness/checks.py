# What each check builds, explores and assumes. gen_manifest.py derives MANIFEST.json from this table.

NOT_APPLICABLE = {}
_N = 'Every execution within the stated bounds is run on the real code (compiled from /repo with AddressSanitizer) and compared with an independent reference model; nothing is claimed beyond the bounds. '
CHECKS = {
 'C01': {'parts': [{'src': 'c01.cpp'}],
   'technique': 'exhaustive enumeration of operation histories on the real sequence against a vector model',
   'note': _N + 'Trusted: g++, ASan, the reference model.',
   'bounds': {'quick': 'all operation histories of length <= 4 (3 for the less central contents) over 14 operations, 17 content types, bounds 0,1,2,3,5; all p pushes + op + q pushes with p <= 18; all two-sequence histories of length <= 4 over 10 operations; sizes 127 to 65537 (around 2^7, 2^8, 2^9, 2^15, 2^16) of 5 contents, bounded there or not, reached in 4 ways',
              'thorough': 'as quick with depth 5 (4), 27 content types, p <= 40, two-sequence depth 5'}},
}
CHECKS['C02'] = {'parts': [{'src': 'c02.cpp'}],
   'technique': 'exhaustive enumeration of operation histories and insertion orders on the real map against an associative-array model',
   'note': _N + 'Assumes that no two keys of a run have the same 64-bit hash.',
   'assumptions': ['no 64-bit hash collision between the keys used'],
   'bounds': {'quick': 'all histories of length <= 4 (3 for most, 2 for bound 1) over 15 operations on 4 keys, 33 key types, 7 value types, bounds 0..3; all orders of insertion of 6 keys per key type (with bound 5 too); 256 to 1000 keys in 5 systematic orders; all two-map histories of length <= 4 over 10 operations; maps with bounds from 1 to 65536 filled in 4 ways and overfilled by both operations',
              'thorough': 'as quick with depth +1, all orders of 7 keys, 3000 keys, two-map depth 5'}}
CHECKS['C03'] = {'parts': [{'src': 'c03.cpp'}],
   'technique': 'exhaustive enumeration of union layouts and operation histories on the real code against a union model',
   'note': _N,
   'bounds': {'quick': '19 discriminator types x 5 layouts, all histories of length <= 3 over up to 20 operations (access, writes, every label and foreign values through d(), copies, assignments); 3 further unions in 6 positions to depth 3-4; every assignment of 4 labels to 3 members x every default for 3 discriminators, depth 2; all refused definitions; all splits of textual labels; unions of up to 400 members and up to 1000 labels per member (all 8-bit labels too), every member by name, every label by d()',
              'thorough': 'depth +1, all layouts for all discriminators'}}
CHECKS['C04'] = {'parts': [{'src': 'c04.cpp'}],
   'technique': 'exhaustive enumeration of type x value pair x copy method x place x later modification on the real code',
   'note': _N,
   'bounds': {'quick': 'all types of two constructor levels over representative leaves, all pairs of up to 5 values, 11 copy/assignment methods, 7 source x 7 target places, every one-step modification of either side and the destruction of either side; self and part-to-part assignments; 265 values with sizes, lengths, member and level counts around 2^7 to 2^16, copied by each method',
              'thorough': 'places for all the types of the universe'}}

CHECKS['C19'] = {'parts': [{'src': 'c19.cpp'}],
   'technique': 'exhaustive enumeration of type x value x leaf x access path x write method x written value on the real code',
   'note': _N,
   'bounds': {'quick': 'all types of two constructor levels over representative leaves, up to 5 values each, every leaf by 5 access styles, 4 write methods and the nodes of for_each, 4-7 written values; all values of 8-bit leaves, every 7th of 16-bit ones, all power-of-two boundaries of bigger ones in 6 places; default values in every place; all chains of 3 modifications (at most 4000 per type); 265 values with sizes, lengths, member and level counts around 2^7 to 2^16, written at the places around those limits',
              'thorough': 'all 16-bit values, chains of 4 modifications (at most 40000 per type)'}}

CHECKS['C05'] = {'parts': [{'src': 'c05.cpp'}],
   'technique': 'exhaustive enumeration of histories of two values (and of types) on the real code under AddressSanitizer with balanced allocations',
   'note': _N,
   'bounds': {'quick': 'all types of two constructor levels over representative leaves, all histories of length <= 3 over 17 operations on two values (4 for six selected types; 2 more from two existing values); all histories of length <= 6 over 15 operations building, copying and releasing types and data; 229 values with sizes, lengths, member and level counts around 2^7 to 2^9 and beyond, built, copied, assigned, put into sequences and maps and destroyed; resizes of 7 contents to 9 sizes from 2^32 to 2^64-1, 13 types whose size overflows, one sequence of more than 4 GiB (if 12 GB are free)',
              'thorough': 'depth 4, 5, 3 and 7; a map of more than 4 GiB, 2^31 elements'}}

CHECKS['C06'] = {'parts': [{'src': 'c06.cpp'}],
   'technique': 'exhaustive enumeration of value pairs x construction histories on the real code, and of complete small domains',
   'note': _N + 'That different values hash differently is demanded of the enumerated values only.',
   'bounds': {'quick': 'all types of two constructor levels over representative leaves, all pairs of up to 34 values, 8 histories leading to each side; all pairs of the 8-bit domains, all hashes of 16-bit and two-byte domains, complete small domains of strings, sequences, maps and unions, values with equal meaning and different bytes; 265 values with sizes, lengths, member and level counts around 2^7 to 2^16 that differ at one place or in a multiple of 128, 256 or 65536 elements',
              'thorough': 'all pairs of up to 70 values'}}

CHECKS['C08'] = {'parts': [{'src': 'c08.cpp'}],
   'technique': 'exhaustive enumeration of ordered pairs of types on the real code against a model of type differences',
   'note': _N,
   'bounds': {'quick': 'all ordered pairs of about 400 types (leaves, one and two constructors, one-difference variants), each with and through aliases; 21 elementary differences nested 3 deep in all combinations of 10 constructors; all pairs of elementary differences side by side; all pairs of 29 extents (0 to 2^32-1) as bound of each collection and dimension, all pairs of member counts up to 513',
              'thorough': 'about 700 types, nesting 4 deep'}}

CHECKS['C07'] = {'parts': [{'src': 'c07.cpp'}],
   'technique': 'exhaustive enumeration of ordered pairs of types x values on the real code against a model of conversion',
   'note': _N + 'Conversions that native C++ leaves undefined (a floating value out of the range of an integer) or that give an enumeration an undeclared value are not made.',
   'bounds': {'quick': 'all ordered pairs of about 400 types (leaves, one and two constructors, one-difference variants), up to 5 values each, created, assigned, pushed, then every one-step modification of either side; all pairs of 18 primitive types with all 8-bit values and power-of-two boundaries, alone and in bulk; all pairs of 63 arrangements of labels and defaults for 3 discriminators; all pairs of 10 sizes from 1 to 700 of arrays, sequences, strings and structs with 5 pairs of contents',
              'thorough': 'about 700 types, 6 discriminators'}}

CHECKS['C10'] = {'parts': [{'src': 'c10.cpp'}],
   'technique': 'exhaustive enumeration of type x operator x operand pairs on the real code against native C++',
   'note': _N + 'Operand pairs on which native C++ is undefined are left out.',
   'bounds': {'quick': '15 primitive types x 16 binary operators (plain, compound with data, with native operand, with itself, with a member), all pairs of 8-bit operands, all pairs of 40-200 boundary operands of the wider types; all unary operators; casts of each of those values to all 15 types and to text; every operator refused for every type that does not offer it and for operands of another type',
              'thorough': 'denser grids for the wider types'}}

CHECKS['C09'] = {'parts': [{'src': 'c09.cpp'}],
   'technique': 'exhaustive enumeration of histories that build, compose, capture and go on changing types, on the real code against a structural model',
   'note': _N,
   'bounds': {'quick': 'all histories of length <= 3 over 20 operations (adding members, cases and enumerators, refused additions, deriving, changing the parent, renaming, copying, capturing into 18 composites with data) from two starts; all histories of length <= 4 over the 8 main ones; all structs of up to 3 members of 13 kinds split over 1-4 ancestors, all unions of 3 members of 13 kinds with 4 discriminators; all structs of 3 of 11 members of up to 70000 bytes and structs of up to 520 members, on up to 40 ancestors, in 6 positions',
              'thorough': 'depth 4 and 6, structs of up to 4 members'}}

CHECKS['C18'] = {'parts': [{'src': 'c18.cpp'}],
   'technique': 'exhaustive enumeration of alias substitutions x values x operations on the real code, in lockstep with the type without aliases',
   'note': _N,
   'bounds': {'quick': 'all types of two constructor levels over representative leaves; aliases of 1 and 2 levels of every single node, of every set of up to 6 nodes (one constructor level) and of all nodes; up to 4 values; every reading, writing, container, union and conversion operation with plain and aliased operands; chains of 5 aliases of every type; all histories of 3 modifications of 10 types',
              'thorough': '3 levels, sets of up to 8 nodes, more values, histories of 4'}}

CHECKS['C13'] = {'parts': [{'src': 'c13.cpp'}],
   'technique': 'exhaustive enumeration of histories of enumerator definitions and copies on the real code against a table, and of all values of the width',
   'note': _N,
   'bounds': {'quick': 'all histories of length <= 4 over 16 operations (definitions with and without value, boundary values, taken names, copies) for 8, 16 and 32 bits, with data (in 6 places after 3 operations); all sets of 8-bit boundary values with all 256 values, the sets of 0, 1 and all 16-bit boundary values with all 65536 values, all sets of up to 3 and all 32-bit boundary values with 150 boundary values; filled 8 and 16-bit enumerations',
              'thorough': 'depth 5, all sets of boundary values'}}

CHECKS['C16'] = {'parts': [{'src': 'c16.cpp'}],
   'technique': 'exhaustive enumeration of complete small domains of texts (code points, bytes, units, lengths, alignments) on the real code against a reference codec',
   'note': _N,
   'bounds': {'quick': 'all code points alone and in 3 contexts, all sequences of 4 representatives at 6 alignments, all lengths up to 200 and selected up to 100000 of 12 fills; all strings of 2 bytes, of 3 bytes with a class byte, of 4 class bytes, at 11 alignments, cut everywhere; all 16-bit units with class neighbours, all sequences of 4 class units at 12 alignments, every 7th pair of surrogates; texts of wide and 16-bit contents',
              'thorough': 'all strings of 3 bytes, of 5 class bytes, all pairs of surrogates, lengths up to 600'}}

CHECKS['C12'] = {'parts': [{'src': 'c12.cpp'}],
   'technique': 'exhaustive enumeration of type x value x modification chain x stopping point x written node on the real code against the node list derived from a value model',
   'note': _N,
   'bounds': {'quick': 'all types of two constructor levels over representative leaves and 8 of three, up to 6 values each in 2 constructions, stopped at every node with both results, written at every node, iterator position and item; at most 1500 chains of up to 3 modifications per type; all those types and their aliases traversed and stopped at every node; lengths up to 1000 and depths up to 40; data of pairs; up to 1000 elements and 260 levels',
              'thorough': 'up to 12 values, 12000 chains per type'}}

CHECKS['C14'] = {'parts': [{'src': 'c14.cpp', 'flags': ['-O2']}, {'src': 'c14.cpp', 'flags': ['-O1', '-fsanitize=address', '-DLIGHT']}],
   'technique': 'exhaustive enumeration of module trees, symbol placements and histories of definitions on the real code against a table per module, with every lookup from every module',
   'note': 'Every execution within the stated bounds is run on the real code (compiled from /repo, a part of it with AddressSanitizer) and compared with an independent reference model; nothing is claimed beyond the bounds. ',
   'bounds': {'quick': '8 trees of up to 5 modules x every placement (every third one for 6 of 16 combinations) of two symbols of the same or of different kinds and names, with 43-95 names looked up in all 5 kinds from every module; all histories of length <= 3 over 26 operations (new modules, definitions, replacements, refused ones, changes) from two starts; chains of up to 10 modules; all triples of definitions of one name (5 kinds, 3 interfaces, 2 modules); a fifth of the sets of 12 neighbouring names for every kind',
              'thorough': 'every placement, depth 4, every set of names'}}

CHECKS['C11'] = {'parts': [{'src': 'c11.cpp'}],
   'technique': 'exhaustive enumeration of type x value x reachable node x misuse on the real code, the whole data compared with a value model after every refusal',
   'note': _N,
   'bounds': {'quick': 'all types of two constructor levels over representative leaves and 10 of three, 3 values each, at every reachable node: 18 native types read, written, pushed and cast; 30-100 indices at and beyond the size (8 to 64 bits, signed and unsigned); 13 member names; every union label of another member; sizes beyond bounds; 21 other types assigned, converted, pushed and used as key, value and pair; bounds 1, 2, 3, 8 at every fill level reached in 3 ways; afterwards the data is modified as usual; all pairs of types with 2 values each; 265 values with sizes, lengths, member and level counts around 2^7 to 2^16, misused at and beyond their ends',
              'thorough': 'three levels, 8 values'}}

CHECKS['C17'] = {'parts': [{'src': 'c17.cpp', 'flags': ['-O1', '-DMC_NO_ALLOC_HOOK']}, {'src': 'c17.cpp', 'flags': ['-O1', '-fsanitize=thread', '-DMC_NO_ALLOC_HOOK', '-DTHREADS']}],
   'technique': 'exhaustive enumeration of type x value x node x read operation on the real code with the shared storage mapped read-only (every write is trapped), so that all interleavings are equivalent; plus all pairs of operations in two threads under ThreadSanitizer',
   'note': 'Every operation within the stated bounds is run on the real code (compiled from /repo). Atomic updates of reference counts are let through. That no two readers conflict makes all their interleavings equivalent, so they are not enumerated one by one. ',
   'counted': 'states: reference count updates let through (part 1) and shared values (part 2); transitions: read operations run; traces: operations whose result was compared with the one on equal data alone',
   'bounds': {'quick': 'all types of three constructor levels (two for threads) over representative leaves, up to 6 values each, and 13 sizes up to 100 of 10 types; at every reachable node some 100 read operations, successful and refused, 15 partners for compatibility, conversion and assignment; 20 operations on whole data and 15 on the type; static storage compared around each',
              'thorough': 'up to 12 values, three levels with threads'}}

CHECKS['C15'] = {'parts': [{'src': 'c15.cpp'}],
   'technique': 'exhaustive enumeration of module trees x placements x dependency graphs x declarations on the real generator, its text read by an independent IDL reader and resolved by IDL scoping',
   'note': _N + 'Trusted: the reader of the generated text. Modules whose types are defined before what they use are in the domain; nameless arrays inside collections, which IDL cannot write, are not.',
   'assumptions': ['no two symbols of one module have the same name', 'a symbol of the root is not hidden, where it is used, by another symbol of its name'],
   'bounds': {'quick': 'one declaration of each of 1200 type expressions (two constructors over 15 primitive types, strings and 16 declared types of 4 kinds in 4 modules) x 4 dimensions x 6 kinds of user in 4 modules; all places of parent, child and grandchild, enumeration, alias and union in 4 trees of modules x all orders of names; all labels (8-bit complete, boundaries of the rest) of 12 discriminator types in pairs; all sets of up to 5 of 11 enumerator values; constants: complete 8-bit domains, boundaries of the rest, all texts of up to 2 of 17 units; every place of three symbols of 4 kinds in 6 trees with every dependency graph, orders of names and ways of use (every 8th to 25th combination), of four (every 50th)',
              'thorough': 'every combination of three, three-unit texts, all enumerator sets'}}

CHECKS['C20'] = {'parts': [{'src': 'c20.cpp'}],
   'technique': 'exhaustive fault injection on the real code: every allocation of every operation fails in an execution of its own (all pairs of faults for histories of two operations), the result compared with a value model, under AddressSanitizer and an allocation balance',
   'note': _N + 'The faults are those of operator new; a bad_alloc is all the library can get from it.',
   'counted': 'states: faults injected; transitions: operations run; traces: operations whose every allocation failed once',
   'assumptions': ['a Module, the IDL generator and the parser are outside of this property'],
   'bounds': {'quick': 'all types of three constructor levels over representative leaves: 6 constructions of 4 values, assignment and reading of all pairs of 3 values, every one-step modification of 3 values; 17 contents at bounds 0 and 4: pushes (data, native, own element), resizes, assignments of parts to parts, map access and insertion before, between and after 0-3 keys, union activation, selection and relabelling; conversions and assignments between all compatible pairs of a universe of some 200 types; 59 refused operations; pairs of faults (the first 25 allocations of each) in all pairs of modifications of 8 types; structures, unions (5 discriminator types) and enumerations built member by member, copied and used as content',
              'thorough': 'pairs of the first 60 allocations, 4 values per conversion'}}

CHECKS['C21'] = {'parts': [{'src': 'c21.cpp', 'flags': ['-O1', '-DMC_NO_ALLOC_HOOK']}, {'src': 'c21d.cpp', 'flags': ['-O1', '-DMC_NO_ALLOC_HOOK']}, {'src': 'c21d.cpp', 'flags': ['-O1', '-fsanitize=address', '-DMEMORY']}],
   'technique': 'exhaustive enumeration of IDL texts on the real parser: every text generated for the enumerated modules of C15 is parsed and what it declares compared with the symbols it was generated from; literals, expressions, labels, dimensions, layouts, malformed texts and histories of texts against tables and an independent evaluator',
   'note': _N + 'Trusted: harness/peglib.h, which stands in for the PEG library that the build would download (its matching and syntax trees; with it the tests of the parser, which cannot be built here otherwise, pass), and the reader of generated text of C15. ',
   'counted': 'states: texts and symbols judged; transitions: texts parsed and symbols compared; traces: texts that agreed',
   'assumptions': ['constants in an expression are of its type or a narrower one', 'what the grammar takes but the library does not represent (interfaces, bitsets, any, fixed) is only required to be refused or ignored without harm'],
   'bounds': {'quick': 'round trip: the texts of all modules enumerated by C15 (of those of more than 150 characters, the half with an even hash); direct: complete 8-bit and all power-of-two neighbours of the other integers x 4 notations; floating point boundaries x precisions; all 1- and 2-unit texts of characters, escapes and code points of every UTF length; all sequences of up to 3 of the 10 operators x 3 operand sets x 6 types, with one pair of parentheses or a sign; up to 3 labels in 10-15 notations for 30 discriminators x every split into cases x place of the default; 17 dimensions x notations x places; every separator of 20 at every token boundary of 5 texts (a 16th of the pairs); every cut, dropped, doubled, swapped token and every foreign character (at every 29th place); all histories of 3 of 8 texts and every cut of a text into consecutive calls; 35 keywords in 8 forms at 8 places under 4 options; characters and strings at 8 places under 6 translations; pairs of 12 ignored declarations at every boundary, pairs of 8 annotations at 12 places; 8 sets x 6 orders of include paths; a name in all 64 sets of 6 modules by 14 paths from each, as 4 kinds of symbol',
              'thorough': 'all pairs of separators, all places of foreign characters (13th), histories of 4, the thorough modules of C15'}}
