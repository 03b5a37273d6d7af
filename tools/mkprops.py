#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
X = "compiler/extensions/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Written bytes are exactly the Zserio Encoding Guide encoding",
 "For every accepted schema and every valid value of its types, the bytes (and the bit size) that the generated Python, Java and C++ code write are exactly those the Zserio Encoding Guide prescribes: field order, bit packing, variable-length integers, floats, strings, bytes, externs, optionals, arrays, enums, bitmasks, choices and unions. It follows that all three languages write identical streams for the same value.",
 ["programs", "inputs"],
 "all schemas of the language (nesting, parameters, choices, unions, optionals, arrays of every kind) x all valid values x the three code generators and runtimes",
 "The repository's unit tests call runtime primitives with a few constants; no baseline test executes generated code at all, and none compares languages. A wrong template branch or emitter decision for one type/array/optional combination stays invisible.",
 [X+"python/freemarker/CompoundField.inc.ftl", X+"java/freemarker/CompoundField.inc.ftl", X+"cpp/freemarker/CompoundField.inc.ftl", X+"python/runtime/src/zserio/bitwriter.py", X+"java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java", X+"cpp/runtime/src/zserio/BitStreamWriter.cpp", X+"python/runtime/src/zserio/array.py", X+"cpp/runtime/src/zserio/Array.h"],
 [("field write code selection", X+"*/src/**/*RuntimeFunctionDataCreator.java and freemarker/CompoundField.inc.ftl"), ("bit stream writers", "python bitwriter.py, java ByteArrayBitStreamWriter.java, cpp BitStreamWriter.cpp"), ("encoding specification", "doc/ZserioEncodingGuide.md")],
 ["serialize_to_bytes / SerializeUtil.serialize / zserio::serialize"])

prop("P02", "Reading a written stream restores the value, all its bits and its position",
 "For every accepted schema and every valid value, deserializing its encoding in Python (with and without the C++ binding), Java or C++ yields an object whose fields, parameters, choice tags and indicators equal the original ones, consumes exactly the encoded number of bits (also when the object starts at a non-byte-aligned position), and re-serializing that object gives the identical stream. (Extended fields of zero encoded size at the very end of a stream cannot be told from absent ones and read as not present.)",
 ["programs", "inputs"],
 "all schemas x all valid values x start bit positions x Python pure / Python C++ binding / Java / C++",
 "Baseline tests read back a handful of hand-written constants with the runtime classes only; the generated readers (constructors, readX functions, array element factories) are never run by them.",
 [X+"python/freemarker/Structure.py.ftl", X+"java/freemarker/Structure.java.ftl", X+"cpp/freemarker/Structure.cpp.ftl", X+"python/freemarker/Choice.py.ftl", X+"python/freemarker/Union.py.ftl", X+"python/runtime/src/zserio/bitreader.py", X+"java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java", X+"cpp/runtime/src/zserio/BitStreamReader.cpp", X+"cpp/runtime/src/zserio/OptionalHolder.h"],
 [("generated read methods", "freemarker/*: Structure, Choice, Union, CompoundField"), ("bit stream readers", "bitreader.py, ByteArrayBitStreamReader.java, BitStreamReader.cpp"), ("array readers", "array.py Array.from_reader, Array.java read, Array.h read")],
 ["deserialize / from_reader / reader constructors", "getters and is...Used/is...Set indicators"])

prop("P03", "Any byte string is decoded as the Encoding Guide says, or rejected",
 "For every accepted schema and every byte string (mutated, truncated or random), Python, Java and C++ each either decode it to exactly the value the Encoding Guide assigns to it, or reject it with the documented exception when the guide assigns no value: end of stream, unknown enumeration value, unknown union tag, value that violates a constraint, wrong offset, index out of bounds. No language returns a value where the stream is malformed, and none rejects a stream that is well formed.",
 ["programs", "inputs"],
 "all schemas x all byte strings up to the sizes the allocator can hold; excluded because the guide assigns no meaning: invalid UTF-8, packing descriptors with more than 62 delta bits, packed deltas that leave the element type, negative array lengths, division by zero and access to absent fields in schema expressions",
 "The interesting streams are not produced by any writer (non-canonical varints, padding bits set, wrong tags, truncation at any bit); example-based tests reach none of the generated reader error paths.",
 [X+"python/runtime/src/zserio/bitreader.py", X+"java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java", X+"cpp/runtime/src/zserio/BitStreamReader.cpp", X+"python/freemarker/CompoundField.inc.ftl", X+"java/freemarker/CompoundField.inc.ftl", X+"cpp/freemarker/CompoundField.inc.ftl"],
 [("constraint check after read", "CompoundField.inc.ftl compound_check_constraint_field"), ("enum value check", "Enumeration.*.ftl"), ("union tag check", "Union.*.ftl"), ("offset check", "CompoundField.inc.ftl / Array checkOffset"), ("end of stream checks", "bit stream readers")],
 ["reader constructors", "exceptions: PythonRuntimeException, IOException/ZserioError, CppRuntimeException"])

prop("P04", "bitSizeOf and initializeOffsets equal the bits written at any start position",
 "For every accepted schema, every valid value and every start bit position, the reported bit size equals the number of bits that write produces from that position, initializing offsets from a position returns exactly the end position, and a C++ writer over a caller-supplied buffer of exactly that size succeeds while a smaller one is refused without touching memory outside it; in Python, Java and C++.",
 ["programs", "inputs"],
 "all schemas x all values x start positions 0..64+ bits, packed and unpacked arrays, auto/implicit arrays, aligned fields, indexed offsets",
 "bitSizeOf is a second implementation of write in every template; agreement must hold for every combination, tests compare a few constants of runtime primitives.",
 [X+"python/freemarker/CompoundField.inc.ftl", X+"java/freemarker/CompoundField.inc.ftl", X+"cpp/freemarker/CompoundField.inc.ftl", X+"python/runtime/src/zserio/bitsizeof.py", X+"java/runtime/src/zserio/runtime/BitSizeOfCalculator.java", X+"cpp/runtime/src/zserio/BitSizeOfCalculator.cpp", X+"cpp/runtime/src/zserio/Array.h"],
 [("bit size macros", "CompoundField.inc.ftl compound_bitsizeof_field"), ("bit size calculators", "bitsizeof.py, BitSizeOfCalculator.java/.cpp"), ("array bitSizeOf", "array.py, Array.java, Array.h")],
 ["bitsizeof / bitSizeOf / initializeOffsets"])

prop("P05", "Offsets and alignment point where the schema says, and wrong offsets are caught",
 "For every schema with aligned fields, field offsets or indexed offset arrays (of every permitted integer type, also in nested or packed structures), serialization sets each offset to the byte position (counted from the beginning of the stream) at which the field it refers to starts, aligned and offset fields start at the required bit boundary with zero padding, and readers reject a stream, and writers an object, in which any offset differs from that position; in Python, Java and C++.",
 ["programs", "inputs"],
 "all placements of align/offset/indexed offset fields x all values x start positions",
 "Offset expressions, indexed offsets, array alignment between elements and offsets kept in other structures interact; the runtime tests use one array class with a mock offset initializer.",
 [X+"python/freemarker/CompoundField.inc.ftl", X+"java/freemarker/CompoundField.inc.ftl", X+"cpp/freemarker/CompoundField.inc.ftl", X+"python/runtime/src/zserio/array.py", X+"java/runtime/src/zserio/runtime/array/Array.java", X+"cpp/runtime/src/zserio/Array.h", "compiler/core/src/zserio/ast/Field.java"],
 [("offset initialization", "initialize_offsets / initializeOffsets in templates and Array classes"), ("offset checks", "compound_check_offset_field, OffsetChecker"), ("alignment", "bitposition.align_to, BitPositionUtil")],
 ["serialized bytes", "exceptions on read/write"])

prop("P06", "Packed arrays are lossless, transparent and encoded with the specified deltas",
 "For every packable element type (integers of every width and sign, varints, enums, bitmasks, and structures, unions and choices containing them, recursively) and every sequence of values including ones whose differences overflow 64 bits, a packed array decodes to exactly the sequence written, its packing descriptor (flag and max bit number) and deltas are those of the Encoding Guide for every packed leaf, non-packable leaves are stored as unpacked, and Python, Java and C++ agree bit for bit on the array and its size.",
 ["programs", "inputs"],
 "all element types x all value sequences (lengths 0,1,2,..; constant, monotone, extreme, alternating) x array kinds (fixed, auto, implicit length in expressions), nesting",
 "Delta arithmetic at the extremes of 64-bit ranges and the choice packed/unpacked per leaf depend on the whole sequence; unit tests use a few short arrays of one type.",
 [X+"python/runtime/src/zserio/array.py", X+"java/runtime/src/zserio/runtime/array/DeltaContext.java", X+"java/runtime/src/zserio/runtime/array/Array.java", X+"cpp/runtime/src/zserio/DeltaContext.h", X+"cpp/runtime/src/zserio/Array.h", X+"python/freemarker/Structure.py.ftl", X+"cpp/freemarker/Structure.cpp.ftl", X+"java/freemarker/Structure.java.ftl"],
 [("delta context", "DeltaContext in array.py, DeltaContext.java, DeltaContext.h"), ("packing contexts of compounds", "ZserioPackingContext in templates"), ("packability decision", "compiler/core/src/zserio/tools + ast/PackedArray helpers, emitters")],
 ["serialized bytes of packed fields"])

prop("P07", "No input bytes can make a reader crash, corrupt memory or run away",
 "Reading any byte string as any type of any accepted schema with the generated C++ code never causes an invalid memory access, undefined behaviour, an exception other than the documented zserio exceptions (or std::out_of_range for an index outside an array in a schema expression), or a hang; Java and Python readers end with a value or with a documented exception (I/O, zserio, or out-of-range errors), never with an unexpected error. The same holds for reading bits directly with the runtime bit stream readers at any position and size.",
 ["programs", "inputs"],
 "all schemas x all byte strings, including truncated, mutated and adversarial lengths (excluded: schema expressions whose own arithmetic overflows)",
 "Memory safety for all inputs is not testable by examples; the C++ runtime has no sanitizer test in the baseline at all.",
 [X+"cpp/runtime/src/zserio/BitStreamReader.cpp", X+"cpp/runtime/src/zserio/BitStreamReader.h", X+"cpp/runtime/src/zserio/Array.h", X+"cpp/runtime/src/zserio/BitBuffer.h", X+"python/runtime/src/zserio/bitreader.py", X+"java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java"],
 [("reader bound checks", "BitStreamReader.cpp readBitsImpl/..., throwEof"), ("position checks", "setBitPosition, alignTo"), ("bit buffer size checks", "BitBuffer.h constructors")],
 ["sanitizer reports, exceptions"])

prop("P08", "Data that violates the schema is never written silently",
 "For every accepted schema, an object that violates it (a number outside its field type's range, an array whose length differs from the schema's length expression, a false constraint, a removed enumeration item, a compound field, not an array element, whose parameters differ from the ones the schema passes, a union without a choice, a choice whose selector has no case) is refused with an exception by the Python, Java and C++ code when it is set or serialized with range checks enabled, and the untouched valid object is accepted. Overlarge values of variable-length and size types are refused too.",
 ["programs", "inputs"],
 "all schemas x all single violations of a valid value x languages in which the violation is expressible",
 "Every check is emitted per field by templates that no baseline test executes.",
 [X+"python/freemarker/CompoundField.inc.ftl", X+"java/freemarker/RangeCheck.inc.ftl", X+"cpp/freemarker/CompoundField.inc.ftl", X+"java/freemarker/CompoundField.inc.ftl", X+"python/runtime/src/zserio/bitwriter.py", X+"cpp/runtime/src/zserio/BitStreamWriter.cpp"],
 [("range checks", "RangeCheck / compound_check_range"), ("constraints", "compound_check_constraint_field"), ("array length check", "compound_check_array_length_field"), ("parameter consistency", "checkParameters / compound_check_parameters")],
 ["exceptions from setters and serialize"])

prop("P09", "Expressions have one meaning: constants, generated code and every language agree",
 "Every accepted zserio expression (arithmetic, bitwise, shift, comparison, logical, ternary, lengthof, valueof, isset, numbits, field, parameter, enum, bitmask and function references) evaluates, for all operand values for which no operand or intermediate result leaves the native integer type, to its mathematical integer (or boolean, float, string) value, whether folded by the compiler into a constant or evaluated at run time by the Python, Java or C++ code in functions, constraints, optional conditions, array lengths, bit-field lengths, selectors and arguments.",
 ["programs", "inputs"],
 "all well-typed expressions over fields of all integer types x operand values such that no intermediate result overflows its native type and no C++ operator mixes a negative with an unsigned operand",
 "Operator precedence, promotion, signedness and parenthesisation are re-implemented in three expression formatters and one constant folder; tests check a few hand-written ones.",
 ["compiler/core/src/zserio/ast/Expression.java", X+"cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java", X+"java/src/zserio/extension/java/JavaExpressionFormattingPolicy.java", X+"python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java", X+"python/runtime/src/zserio/builtin.py", X+"java/runtime/src/zserio/runtime/BuiltInOperators.java", X+"cpp/runtime/src/zserio/BuiltInOperators.cpp"],
 [("constant folding", "Expression.evaluate*"), ("expression formatting", "*ExpressionFormattingPolicy"), ("numbits", "builtin runtime")],
 ["function results, constants, field presence and sizes"])

prop("P10", "Equality, hash codes, ordering and copies obey their laws",
 "For every schema and all values: objects are equal exactly when all their used fields and parameters are equal, equal objects have equal hash codes, C++ operator< is a strict weak order consistent with == (lexicographic by parameters and fields), and copies, moves and assignments in C++ yield equal, independent objects with allocators propagated. Unused optional values never influence equality, hash or order.",
 ["programs", "inputs"],
 "all schemas x all pairs/triples of values (equal, differing in one field or in unused fields only)",
 "Laws over pairs and triples of arbitrary values of arbitrary types; generated operators are not executed by the baseline.",
 [X+"python/freemarker/Structure.py.ftl", X+"java/freemarker/Structure.java.ftl", X+"cpp/freemarker/Structure.cpp.ftl", X+"cpp/freemarker/CompoundField.inc.ftl", X+"python/runtime/src/zserio/hashcode.py", X+"java/runtime/src/zserio/runtime/HashCodeUtil.java", X+"cpp/runtime/src/zserio/HashCodeUtil.h"],
 [("hash code utilities", "hashcode.py, HashCodeUtil.java, HashCodeUtil.h"), ("generated comparison", "Structure/Choice/Union templates"), ("holders", "OptionalHolder.h, AnyHolder.h, Array.h")],
 ["__eq__/__hash__, equals/hashCode, operator==, operator<, hashCode()"])

prop("P11", "JSON export follows the JSON guide and re-imports to an equal object",
 "For every schema and valid value, the JSON text exported by Python, Java and C++ (any indentation) denotes the same document as the Zserio JSON Guide prescribes for that value, and importing it in any of the three languages yields an object that serializes to the same bytes. Any JSON whitespace, escapes and number notation are accepted on import, members may come in any order unless the type arguments or bit lengths of other members depend on them, missing optional members stay unset, and a document that does not fit the schema (a value of the wrong kind or out of range, an unknown member or enumeration item) is refused on import or when it is serialized, never silently changed to another value.",
 ["programs", "inputs"],
 "all schemas with type info x all values x indent settings x permuted members",
 "JSON goes through type info, tree creator, walker, encoder/decoder and reflection for every type; unit tests use one fixed dummy schema and a few literals.",
 [X+"python/runtime/src/zserio/json.py", X+"python/runtime/src/zserio/creator.py", X+"java/runtime/src/zserio/runtime/json/JsonReader.java", X+"java/runtime/src/zserio/runtime/json/JsonWriter.java", X+"java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java", X+"cpp/runtime/src/zserio/JsonReader.h", X+"cpp/runtime/src/zserio/JsonWriter.h", X+"cpp/runtime/src/zserio/ZserioTreeCreator.cpp"],
 [("JSON writer", "json.py JsonWriter, JsonWriter.java, JsonWriter.h"), ("JSON reader/creator", "JsonReader, ZserioTreeCreator"), ("specification", "doc/JsonGuide.md")],
 ["to_json_string / from_json_string, SerializeUtil/DebugStringUtil"])

prop("P12", "The JSON readers accept exactly JSON and read every value exactly",
 "For every text, the JSON readers of Python, Java and C++ either produce the same values as a reference JSON parser (integers exactly over the whole 64-bit ranges, floats to the nearest double, strings with all escapes and non-ASCII characters) or fail with the JSON parser exception; malformed documents are never accepted as a different document. JSON strings survive encoding and decoding unchanged for every sequence of Unicode characters.",
 ["inputs"],
 "all texts (valid documents with random formatting, and mutated ones) and all strings and numbers",
 "Tokenizer and decoder are hand-written three times; tests list a few tokens and numbers.",
 [X+"python/runtime/src/zserio/json.py", X+"java/runtime/src/zserio/runtime/json/JsonTokenizer.java", X+"java/runtime/src/zserio/runtime/json/JsonDecoder.java", X+"cpp/runtime/src/zserio/JsonTokenizer.cpp", X+"cpp/runtime/src/zserio/JsonDecoder.h", X+"cpp/runtime/src/zserio/JsonParser.h"],
 [("decoder", "JsonDecoder"), ("tokenizer", "JsonTokenizer"), ("parser", "JsonParser"), ("encoder", "JsonEncoder")],
 ["JsonParser observers, JsonReader results"])

prop("P13", "Type information describes exactly the schema",
 "For every accepted schema, the type information generated for Python, Java and C++ names every type with its full schema name and lists exactly its fields, parameters, functions, choice cases, enum items, bitmask values, tables, columns, services and topics in schema order, with the right types, optional/array/packed/implicit/offset/alignment/extended attributes, item values and evaluated expressions, and the three languages agree with each other and with the schema.",
 ["programs"],
 "all schemas generated with -withTypeInfoCode",
 "Type info is produced by large per-language templates for every construct; tests inspect hand-built instances only.",
 [X+"python/freemarker/TypeInfo.inc.ftl", X+"java/freemarker/TypeInfo.inc.ftl", X+"cpp/freemarker/TypeInfo.inc.ftl", X+"python/runtime/src/zserio/typeinfo.py", X+"java/runtime/src/zserio/runtime/typeinfo/TypeInfo.java", X+"cpp/runtime/src/zserio/TypeInfo.h"],
 [("type info templates", "TypeInfo.inc.ftl"), ("type info runtime", "typeinfo.py, TypeInfo.java, TypeInfo.h")],
 ["type_info() / typeInfo()"])

prop("P14", "Generic access (reflection, walking, tree creation) sees exactly the object",
 "For every schema and value, walking an object visits exactly its present fields, in schema order, with the right values, element indices and type information, once each; depth, regex, array-length and combined filters select exactly the documented subset; C++ reflection reads, writes, finds and calls fields, parameters and functions with the same results as the typed accessors, and an object built generically through the tree creator equals the one built by accessors.",
 ["programs", "inputs"],
 "all schemas x all values x filters",
 "Walker, reflection and creator are driven by generated metadata; tests use one dummy schema.",
 [X+"python/runtime/src/zserio/walker.py", X+"java/runtime/src/zserio/runtime/walker/Walker.java", X+"cpp/runtime/src/zserio/Walker.h", X+"cpp/runtime/src/zserio/WalkerConst.h", X+"cpp/runtime/src/zserio/Reflectable.h", X+"cpp/freemarker/Reflectable.inc.ftl", X+"cpp/runtime/src/zserio/ZserioTreeCreator.cpp"],
 [("walkers", "walker.py, Walker.java, Walker.h"), ("reflection", "Reflectable.h, Reflectable.inc.ftl"), ("tree creator", "ZserioTreeCreator")],
 ["observer callbacks"])

prop("P15", "The compiler never crashes: every text is compiled or rejected with an error",
 "For every input text, the zserio compiler either succeeds, or reports an error with a file position and a failing result and leaves no generated sources for it; it never fails with an internal error or an unhandled exception, never hangs, and gives the same verdict whatever generators are selected (except for names which a target language cannot express).",
 ["inputs", "programs"],
 "all texts: random token soup, mutated and cross-bred valid schemas, deep nesting, unusual literals and names",
 "Compiler unit tests parse a handful of files; the space of malformed schemas is unbounded.",
 ["compiler/core/src/zserio/tools/ZserioTool.java", "compiler/core/src/zserio/ast/ZserioAstBuilder.java", "compiler/core/src/zserio/ast/Expression.java", "compiler/core/antlr/ZserioParser.g4", "compiler/core/antlr/ZserioLexer.g4"],
 [("error handling", "ZserioTool.execute/runTool, ParserException"), ("AST construction", "ZserioAstBuilder"), ("checks", "ZserioAst* check visitors")],
 ["exit status and diagnostics of the tool"])

prop("P16", "Statically invalid schemas are always rejected, valid ones never",
 "Every schema that breaks a documented static rule (unknown or duplicate symbols, wrong types in expressions, wrong argument counts, constants out of the range of their type, invalid array lengths, offsets or alignments, clashing enum values or choice cases, cyclic inclusion or subtypes, forward field references, illegal extended, packed or optional use) is rejected with an error wherever in an otherwise valid schema the defect is placed, and the same schema without the defect is accepted.",
 ["programs"],
 "all valid schemas x all single injected static errors of the documented classes",
 "The tests have one fixed file per error; position, nesting and templates are never varied.",
 ["compiler/core/src/zserio/ast/Scope.java", "compiler/core/src/zserio/ast/Field.java", "compiler/core/src/zserio/ast/Expression.java", "compiler/core/src/zserio/ast/EnumType.java", "compiler/core/src/zserio/ast/ChoiceType.java", "compiler/core/src/zserio/ast/TypeInstantiation.java"],
 [("scope and type evaluation", "ZserioAstScopeEvaluator, ZserioAstEvaluator"), ("checks", "check() methods of ast classes")],
 ["exit status and diagnostics"])

prop("P17", "Generated output is deterministic and independent of everything but the input",
 "For every schema and set of options, running the compiler again (in another directory, another process, another file-system order, with other generators enabled, or over an older output) produces byte-identical files for each generator, outputs of an unchanged schema are not regenerated when they are newer, and a changed schema always regenerates them.",
 ["programs", "configurations", "histories"],
 "all schemas (multi-file packages included) x option sets x repeated runs and edits",
 "No test runs the generators twice.",
 ["compiler/core/src/zserio/tools/ZserioTool.java", "compiler/core/src/zserio/tools/ExtensionManager.java", "compiler/core/src/zserio/tools/OutputFileManager.java", "compiler/core/src/zserio/tools/FileUtil.java"],
 [("timestamps", "ZserioTool / OutputFileManager"), ("emitters", X+"*/src")],
 ["generated files"])

prop("P18", "Equivalent schemas encode alike: templates, subtypes, packages, unions",
 "Documented schema equivalences preserve the encoding in every language: a template instantiation encodes as the type written out by hand, a subtype as its target, a type imported from another package as a local one, a type parameter as a constant of the same value, an auto array as a varsize length followed by the elements, an auto optional as a bool followed by the field, a union as a varsize tag followed by the chosen field, and comments, formatting and the order of declarations never matter.",
 ["programs", "inputs"],
 "all schemas x all meaning-preserving rewrites x values",
 "Relations between pairs of programs are outside unit tests; template instantiation in particular has many scopes and positions.",
 ["compiler/core/src/zserio/ast/TemplatableType.java", "compiler/core/src/zserio/ast/InstantiateType.java", "compiler/core/src/zserio/ast/ZserioAstTemplator.java", "compiler/core/src/zserio/ast/Subtype.java", "compiler/core/src/zserio/ast/Package.java", "compiler/core/src/zserio/ast/UnionType.java"],
 [("template instantiation", "ZserioAstTemplator, TemplatableType.instantiate"), ("symbol resolution", "Scope, Package, ZserioAstSymbolResolver"), ("reference", "doc/ZserioEncodingGuide.md, doc/ZserioLanguageOverview.md")],
 ["serialized bytes"])

prop("P19", "Schema evolution: extended members and removed enum items stay compatible",
 "Data written with a schema can be read with its successor that appends extended members (which then are not present) and data of the successor with the predecessor; presence is reported correctly, unread extended fields are byte-aligned as documented, writing back an object read from old data reproduces the old stream, and setting one extended member makes all of them present. A removed enum item can still be read but never written.",
 ["programs", "inputs"],
 "all base structures x extension steps x values x languages",
 "Compatibility relates two schemas and two generated code bases; no baseline test runs generated code.",
 [X+"python/freemarker/Structure.py.ftl", X+"java/freemarker/Structure.java.ftl", X+"cpp/freemarker/Structure.cpp.ftl", X+"python/freemarker/CompoundField.inc.ftl", X+"cpp/freemarker/CompoundField.inc.ftl", "compiler/core/src/zserio/ast/StructureType.java"],
 [("extended fields", "templates: isXPresent / num extended fields"), ("removed enum items", "Enumeration templates")],
 ["bytes, is_x_present indicators"])

prop("P20", "SQL tables and databases store and return rows faithfully",
 "For every schema with SQL tables and databases and all rows, rows written through the generated Python, Java and C++ table classes are read back equal (blobs, parameters, NULLs, every integer and string type), also across the languages on the same SQLite file, updates change only the matching rows, created tables have the documented columns and constraints, and validation reports no error for written rows and reports every injected corruption of a blob, a range, an enum or the table layout.",
 ["programs", "histories"],
 "all table schemas x sequences of write/update/read x injected corruptions",
 "No baseline test executes generated SQL code.",
 [X+"python/freemarker/SqlTable.py.ftl", X+"java/freemarker/SqlTable.java.ftl", X+"cpp/freemarker/SqlTable.cpp.ftl", X+"cpp/freemarker/SqlDatabase.cpp.ftl", X+"java/freemarker/SqlDatabase.java.ftl", X+"python/freemarker/SqlDatabase.py.ftl", X+"cpp/runtime/src/zserio/ValidationSqliteUtil.h", X+"java/runtime/src/zserio/runtime/validation/ValidationSqliteUtil.java"],
 [("table classes", "SqlTable templates"), ("validation", "validate methods, ValidationSqliteUtil")],
 ["read/write/update/validate"])

prop("P21", "Services and pubsub deliver each message to exactly its method or topic",
 "For every service and pubsub schema in Python, Java and C++: a client call delivers the request unchanged to exactly the named method with the given context and returns the response unchanged, unknown method names are refused, exceptions propagate; a published message goes to exactly its topic with its exact encoding and context, a subscription receives exactly the messages of its topic, decoded equal, and publish-only or subscribe-only messages expose only that direction.",
 ["programs", "histories"],
 "all services/pubsubs x sequences of calls, subscriptions, publications and unsubscriptions",
 "Generated service and pubsub classes are not executed by baseline tests.",
 [X+"python/freemarker/Service.py.ftl", X+"python/freemarker/Pubsub.py.ftl", X+"java/freemarker/Service.java.ftl", X+"java/freemarker/Pubsub.java.ftl", X+"cpp/freemarker/Service.cpp.ftl", X+"cpp/freemarker/Pubsub.cpp.ftl"],
 [("dispatch", "Service/Pubsub templates"), ("service data", "service.py, ServiceData.java, IService.h")],
 ["call_method / callMethod, publish/subscribe callbacks"])

prop("P22", "Bit stream writers and readers are exact inverses for every operation sequence",
 "For every sequence of write operations (fixed-width bits of any width, signed and unsigned, varints of every kind, floats, bytes, strings, bit buffers, bools, alignment, position changes) at any bit position, the four runtimes (Python, Python C++ binding, Java, C++) produce the same bits as the specification, the matching read sequence restores every value and position, every value at or just beyond a type's range is accepted or refused accordingly, and bit size calculators agree with what is written.",
 ["histories", "inputs"],
 "all operation sequences x all values and positions x 4 runtime implementations",
 "Unit tests write aligned constants or a few shifted ones; state carried between operations (cache refills, partial bytes, buffer growth) depends on the history.",
 [X+"python/runtime/src/zserio/bitwriter.py", X+"python/runtime/src/zserio/bitreader.py", X+"java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java", X+"java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java", X+"cpp/runtime/src/zserio/BitStreamWriter.cpp", X+"cpp/runtime/src/zserio/BitStreamReader.cpp", X+"python/zserio_cpp"],
 [("reader cache", "BitStreamReader.cpp ReaderContext cache"), ("range checks", "writers"), ("buffer growth", "ByteArrayBitStreamWriter.java")],
 ["runtime API"])

prop("P23", "float16/32/64 conversions are exact, monotone and rounding-correct",
 "Converting any 16-, 32- or 64-bit pattern to the in-memory float and back is the identity (up to NaN payload), every float16 value converts to the exactly equal number, every 32-bit float converts to the nearest float16 with ties away from zero (from 65520 on to infinity, magnitudes below the smallest subnormal to zero with the same sign, NaN to NaN), and Python, Java and C++ agree for every pattern.",
 ["inputs"],
 "all 65536 half patterns, all float32 (sampled with all exponents and rounding boundaries), all float64 (sampled)",
 "Rounding boundaries and subnormals are a thin set; tests sample a few constants.",
 [X+"python/runtime/src/zserio/float.py", X+"java/runtime/src/zserio/runtime/FloatUtil.java", X+"cpp/runtime/src/zserio/FloatUtil.cpp"],
 [("conversions", "float.py, FloatUtil.java, FloatUtil.cpp")],
 ["conversion functions and read/write of floats"])

prop("P24", "BitBuffer compares, hashes and round-trips by its bits alone",
 "Two bit buffers are equal (and then hash alike and serialize alike) exactly when they have the same bit size and the same bits, whatever the unused bits of the last byte contain; construction checks the size; copying and reading back preserves them; in Python, Java and C++ alike.",
 ["inputs"],
 "all buffers x bit sizes x junk in unused bits",
 "Masking of the last byte matters for 7 of 8 sizes and for junk bits that only arise from particular constructions.",
 [X+"python/runtime/src/zserio/bitbuffer.py", X+"java/runtime/src/zserio/runtime/io/BitBuffer.java", X+"cpp/runtime/src/zserio/BitBuffer.h"],
 [("last byte masking", "BitBuffer")],
 ["==, hash, write/read"])

prop("P25", "C++ runtime containers and allocators behave like their standard models",
 "Every operation sequence on the C++ runtime's optional holders, any holder, spans, string views, polymorphic allocator strings/vectors and string/number conversion helpers behaves as the corresponding standard library model, constructs and destroys each contained object exactly once, frees all memory to the resource it came from, and never accesses invalid memory.",
 ["histories"],
 "all operation sequences (construct, copy, move, assign, reset, get, compare) x contained types x allocators",
 "Lifetime properties over histories; the C++ runtime tests are not even part of the baseline.",
 [X+"cpp/runtime/src/zserio/OptionalHolder.h", X+"cpp/runtime/src/zserio/AnyHolder.h", X+"cpp/runtime/src/zserio/Span.h", X+"cpp/runtime/src/zserio/StringView.h", X+"cpp/runtime/src/zserio/StringConvertUtil.h", X+"cpp/runtime/src/zserio/pmr/PolymorphicAllocator.h", X+"cpp/runtime/src/zserio/UniquePtr.h"],
 [("storage management", "OptionalHolder.h, AnyHolder.h"), ("allocator rebinding", "AllocatorHolder.h, pmr/*")],
 ["C++ API"])

prop("P26", "Generator options never change data: only the documented feature",
 "For every schema and value, switching optional code (range checks, type info, reflection, parsing info, source-area comments, polymorphic allocator, and generating other outputs) on or off leaves the serialized bytes, the decoded values and the accept/reject verdict for valid data unchanged in Python, Java and C++, and the generated sources still compile; with parsing info (C++) the reported positions and sizes are the true ones.",
 ["configurations", "programs", "inputs"],
 "all schemas x option combinations x values",
 "Each option multiplies template branches; no baseline test compiles generated code.",
 [X+"cpp/src/zserio/extension/cpp/CppExtension.java", X+"java/src/zserio/extension/java/JavaExtension.java", X+"python/src/zserio/extension/python/PythonExtension.java", X+"cpp/freemarker/Structure.cpp.ftl", X+"java/freemarker/RangeCheck.inc.ftl"],
 [("option handling", "*ExtensionParameters"), ("conditional template code", "freemarker")],
 ["bytes and values"])

prop("P27", "Doc and XML outputs describe the whole schema without dangling links",
 "For every accepted schema the XML output is well-formed and contains every package, type, field, function, item, value, expression and documentation comment of the schema in schema order, and the HTML documentation has a page for every package that shows every declaration and the text of every comment, every internal link in it resolves to an existing file and anchor, text of schemas and comments is escaped (except the HTML formatting that comments may contain by design), every symbol of the schema is listed with its own anchor, and the lists of users of a symbol are complete.",
 ["programs"],
 "all schemas, names and documentation comments",
 "Documentation emitters are not tested in the baseline.",
 [X+"doc/src/zserio/extension/doc", X+"doc/freemarker", X+"xml/src/zserio/extension/xml"],
 [("doc emitters", X+"doc/src"), ("xml emitter", X+"xml/src")],
 ["generated HTML/XML"])

prop("P28", "Enumerations and bitmasks carry exactly the values of the schema",
 "For every enum and bitmask definition (explicit, implicit and constant-expression values, removed and deprecated items, every underlying type), the generated Python, Java and C++ types assign each item its schema value, convert between value, ordinal, name and item consistently, refuse values and names that are not defined, order and hash by value, and bitmask operators (or, and, xor, complement) act on the bits of the underlying type only, with the documented string form.",
 ["programs", "inputs"],
 "all enum/bitmask definitions x all values of the underlying type",
 "Value assignment and conversions are emitted per definition; generated enums are not tested.",
 ["compiler/core/src/zserio/ast/EnumType.java", "compiler/core/src/zserio/ast/BitmaskType.java", X+"python/freemarker/Enumeration.py.ftl", X+"java/freemarker/Enumeration.java.ftl", X+"cpp/freemarker/Enumeration.h.ftl", X+"cpp/freemarker/Enumeration.cpp.ftl", X+"cpp/freemarker/Bitmask.h.ftl", X+"java/freemarker/Bitmask.java.ftl", X+"python/freemarker/Bitmask.py.ftl"],
 [("value evaluation", "EnumType.evaluate, BitmaskType.evaluate"), ("templates", "Enumeration/Bitmask")],
 ["enum/bitmask API"])

prop("P29", "Default values and fresh objects are those of the schema",
 "For every schema, a freshly constructed object in Python, Java and C++ has every field initialised to its schema default value or, without one, to the documented initial state; optional fields with defaults report themselves as set; defaults are converted to the field type exactly; and a default constructed object whose schema makes it valid serializes to the encoding of exactly those values.",
 ["programs"],
 "all fields x all constant default expressions",
 "Initialisers are emitted per field; not executed by the baseline.",
 [X+"python/freemarker/Structure.py.ftl", X+"java/freemarker/Structure.java.ftl", X+"cpp/freemarker/Structure.cpp.ftl", "compiler/core/src/zserio/ast/Field.java"],
 [("initializers", "field.initializer in templates")],
 ["getters of fresh objects"])

prop("P30", "Every accepted schema generates code that compiles and loads in every language",
 "Whenever the compiler succeeds for Python, Java or C++, the generated Python modules import, the Java sources compile and the C++ sources compile without errors, for all names (keywords, clashes with generated names, case variants), constructs and options; names the generators cannot express are refused with an error.",
 ["programs", "configurations"],
 "all accepted schemas x generator options",
 "No baseline test compiles generated code.",
 [X+"cpp/freemarker", X+"java/freemarker", X+"python/freemarker", X+"cpp/src/zserio/extension/cpp", X+"java/src/zserio/extension/java", X+"python/src/zserio/extension/python"],
 [("symbol clash checks", "identifier validators in extensions"), ("templates", "freemarker")],
 ["compilers' verdicts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
