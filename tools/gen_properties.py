#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PA = "src/parse/parser.rs"; FO = "src/parse/format.rs"; OB = "src/obj.rs"; AR = "src/arr.rs"; TU = "src/tup.rs"
TY = "src/types.rs"; VA = "src/value.rs"; UT = "src/parse/util.rs"; CS = "src/parse/char_stream.rs"; ER = "src/parse/error.rs"

p("C01", "Writing an object and reading it back gives the same object",
  "For every object whose field names are legal, non-reserved and unique within their object and which nests at most 64 levels, the text it is written as (to a string or to a file) parses without error to an object with the same fields in the same order, the same values of the same types, and the same chain of parents. This holds whether the object was built through the API or obtained by parsing, and writing the re-read object reproduces the same text.",
  ["inputs"], "all objects over all value types, sizes, nestings, strings, numbers, field names and parent chains",
  "The write test round-trips ten fixed files; strings with every escape, one-element and empty containers, negative and whole fractions, parents inside arrays, and deep nesting in combination are never sampled.",
  [FO, PA, OB, "src/util.rs"], [("Format impls", FO + " impl Format for Value/Arr/Tup/Obj/String/BigRational"), ("write_to_string / write_to_file", OB)],
  ["Obj::write_to_string", "Obj::write_to_file", "Obj::from_str", "Obj::from_file"])

p("C02", "Loading any text or file is total: an object or an error, never a crash",
  "For every text given to the parser and every file or tree of files loaded (of any size, nesting, chain of includes, file kind or byte content), loading finishes and returns either an object or an error value. It never panics, aborts, overflows the stack or loops forever, and an object it returns can be compared, displayed, written and dropped without doing so either. (Documents whose value, written out in full, would not fit in memory are outside this property.)",
  ["inputs"], "all byte strings, all token sequences, adversarially long/deep/chained documents, arbitrary include trees",
  "The error tests hold about 60 fixed files, and the assertion test over them is already failing in this toolchain and so reports nothing; there is no fuzzing in CI.",
  [PA, CS, UT, FO, "src/parse/mod.rs"], [("depth checks", PA + " parse_obj/parse_arr/parse_tup/parse_include"), ("peek().unwrap() guarded by find_char", PA)],
  ["Obj::from_str", "Obj::from_file", "process exit status"], [("depth", "current nesting level of the parser", PA)])

p("C03", "Numeric literals denote exactly the number written",
  "Every digit-string literal of any length is read as the Int with that decimal value, and every literal with a decimal mark ('.' or ',') as the Frac exactly equal to that decimal, with no rounding or overflow; leading zeros, trailing fractional zeros, a missing whole or fractional part, and single underscores between or after digits do not change the number. A literal with no digits, a second decimal mark, two consecutive underscores or any foreign character is rejected.",
  ["inputs"], "all literals: any number of digits, any placement of mark, underscores and zeros",
  "numbers.over holds some twenty literals, none longer than machine words on both sides of the mark.",
  [PA, UT], [("parse_numeric", PA), ("frac_from_whole_and_dec", UT)], ["Obj::from_str + get_int/get_frac"])

p("C04", "Arithmetic is exact and follows the documented precedence and types",
  "Every expression over + - * / % and unary signs evaluates to the exact mathematical result, with unary signs binding tightest, then * / %, then + -, and operators of equal precedence applied left to right. Int with Int gives Int except that / always gives a Frac; Int with Frac gives Frac; % takes two Ints and yields the truncated remainder (sign of the dividend); + also joins two Strs or two Arrs of compatible element types in order. Every other operand type combination, and division or remainder by zero, is rejected with an error.",
  ["inputs"], "all expression trees over all operand types and magnitudes, written literally or through variables",
  "operations.over and numbers.over sample about thirty expressions; long chains mixing precedence levels, big operands, mixed types and invalid combinations are not enumerated.",
  [PA, "src/parse/mod.rs"], [("operator queue in parse_value", PA), ("unary_op_on_value / binary_op_on_values", PA), ("BinaryOp::is_priority", "src/parse/mod.rs")],
  ["Obj::from_str + get"], [("val_deque/op_deque", "pending low-precedence operands and operators", PA)])

p("C05", "String literals keep every character; only listed escapes are interpreted",
  "A quoted string denotes exactly the characters between the quotes, including raw newlines, carriage returns, tabs, '#', brackets, control and any non-ASCII characters, with only \\\\ \\\" \\' \\$ \\n \\r \\t replaced by the character they name. Any other escaped character and an unterminated string are rejected.",
  ["inputs"], "all sequences of Unicode scalar values and escapes, of any length and position in a document",
  "A dozen fixed strings are tested; no test covers control characters, all escapes in sequence, or escapes next to the closing quote.",
  [PA, UT, FO], [("parse_str", PA), ("get_escape_char", UT)], ["Obj::from_str + get_str"])

p("C06", "Variables resolve only to earlier fields of the same object or earlier globals",
  "A name used as a value yields the value of the field with that name defined earlier in the innermost enclosing object (looking through arrays and tuples but not into outer, sibling or inner objects), and @name yields the value of the global defined earlier anywhere in the same file, including inside nested objects. Any other name is rejected, redefining a field in one object or a global in one file is rejected, and globals never appear among the fields of the resulting objects.",
  ["inputs", "programs"], "all documents: every nesting of scopes, every order of definition and use",
  "globals.over and obj.over hold a few legal references; illegal references (outer scope, later definition, sibling, other file) appear only in the error test that no longer runs to the end.",
  [PA], [("obj_pairs / globals lookup in parse_variable", PA), ("duplicate checks in parse_field_value_pair", PA)],
  ["Obj::from_str"], [("globals", "file-wide map of global values", PA), ("obj_pairs", "fields of the object being parsed", PA)])

p("C07", "An object inherits its parents' fields and its own fields override them",
  "Looking up a field gives the object's own value if it has one, otherwise that of the nearest ancestor along the parent chain that has it, and reports exactly that object as the source; a field in no ancestor is absent. Counting, iterating, and testing containment cover only the object's own fields, whether the chain was written with '^' (at most one per object, at any place among the fields, object values only) or built through the API.",
  ["inputs"], "all parent chains: any length, overlap of fields, sharing of parents, position of '^'",
  "One unit test uses a three-object chain and one file uses '^' once.",
  [OB, PA], [("Obj::get / get_with_source", OB), ("FieldType::Parent handling", PA)],
  ["Obj::get", "Obj::get_with_source", "Obj::get_parent", "Obj::contains", "Obj::len"], [("parent", "optional parent object", OB)])

p("C08", "Dot notation reads exactly the addressed field or element",
  "A path of field names through objects yields the value of the addressed field, own or inherited, and an index after a dot into an array or tuple (a non-negative Int literal or global, or for an array or tuple named directly also an Int field in scope) yields exactly that zero-based element. A missing field (including a reserved word that is not a field), an out-of-range, negative, fractional or non-Int index, a global name after an object, a space after the dot, and a dot on any other type of value are rejected.",
  ["inputs"], "all paths over all nested values, in every value position (field, element, operand, global)",
  "obj.over tests about eight paths; no test covers inherited fields, which the README documents.",
  [PA], [("dot handling in parse_variable", PA), ("Arr::get / Tup::get bounds", AR + ", " + TU)], ["Obj::from_str"])

p("C09", "Arrays hold values of one type, and the array's type is the most specific one",
  "An array of values is accepted (through the API, a literal, an included array file, or concatenation) exactly when some single type fits all its elements, where an empty array's element type fits anything; otherwise it is rejected. The accepted array reports the most specific such element type, independent of the order of its elements and of how it was built.",
  ["inputs"], "all lists of values over all nested array/tuple types with empty arrays at any position",
  "any_type.over and three unit assertions sample five lists; nested empties, late mismatches and permutations are not covered.",
  [AR, TY, PA], [("Arr::from_values", AR), ("Type::most_specific", TY), ("element loop in parse_arr / parse_arr_file", PA), ("Arr branch of binary_op_on_values", PA)],
  ["Arr::from_values", "Arr::inner_type", "Value::get_type", "Obj::from_str"], [("inner_t", "element type of the array", AR)])

p("C10", "Types obey their algebra: strict identity, wildcard equality, most specific join",
  "Strict comparison of types is structural identity; equality additionally lets Any match everything at any depth and is reflexive and symmetric; has_any holds exactly when Any occurs anywhere in the type. most_specific exists exactly when the two types are equal in that sense, is commutative, idempotent and has Any as neutral element, yields a type equal to both inputs with Any only where both inputs allow it, and its flag says whether the result still contains Any.",
  ["inputs"], "all pairs and triples of types of any depth and width",
  "One doc-test checks one pair; three assertions check inequality.",
  [TY], [("Type::is / has_any / most_specific / PartialEq", TY)], ["Type::is", "Type::eq", "Type::has_any", "Type::most_specific", "Value::get_type"])

p("C11", "An include yields exactly the included file's content, read once",
  "An include is worth exactly what its file holds, read as the stated kind: an object (the default), an array or tuple of its whitespace-separated values, or the verbatim text for Str. The path is resolved relative to the including file (or the working directory for text input), neither fields nor globals pass between files, and including one file several times as the same kind in one load, under any spelling of its path, yields one shared value, while including it as another kind reads it as that kind. A missing file, a directory, a non-string path or an invalid include keyword is rejected.",
  ["inputs", "configurations"], "all trees of files, directories, links, kinds, path spellings and repeated includes",
  "One fixed tree of eight files is tested, always with one kind per file and from one directory level.",
  [PA, CS], [("parse_include", PA), ("parse_obj_file_includes / parse_arr_file / parse_tup_file / parse_str_file", PA)],
  ["Obj::from_file", "Obj::from_str", "ReferenceType::ptr_eq"], [("included", "cache of already read includes and set of files being read", PA)])

p("C12", "Include cycles are rejected and every acyclic include graph is accepted",
  "Loading a file whose includes lead back, directly or through any number of files, links or path spellings, to a file still being read fails with an error. Loading an acyclic include graph, including diamonds, repeated includes and includes that follow a completed one, never fails for being cyclic.",
  ["inputs", "configurations"], "all include graphs over any number of files, with arbitrary edges, kinds and path spellings",
  "Only self-inclusion is tested, in the error test that no longer reports; graphs with longer cycles or shared nodes are infinite in number.",
  [PA], [("included.1 set in parse_include", PA)], ["Obj::from_file"], [("included.1", "canonical paths of the files currently being read", PA)])

p("C13", "A rejected document's error names the file and position of the fault",
  "Every error returned for a document that was read names the line, counted from 1 in characters separated by newlines, of the offending token (or the last line if the text ends too early), together with its column wherever a column is given, regardless of the comments, blank lines, multi-line strings, tabs or multi-byte characters before it (a fault that is a newline character itself may be placed on either side of it). When documents come from files the message begins with the path of the file that contains the fault, which may be an included one.",
  ["inputs"], "all documents with a fault of any kind at any place, in the main or an included file",
  "The error test checks 60 fixed messages but fails on an unrelated message in this toolchain, so nothing checks positions now.",
  [ER, PA, CS], [("line/col counters", CS), ("ParseErrorKind positions", ER), ("parse_err(stream.file(), ..)", PA)],
  ["Display of OverError::ParseError"], [("line, col", "position of the next character", CS)])

p("C14", "Documents that break the grammar are rejected, all others accepted",
  "A text is accepted exactly when it is a well-formed sequence of 'field: value' pairs: missing or extra colons, values or quotes, brackets that are missing, mismatched or left over, values not separated by whitespace, spaces inside expressions, truncation inside any construct, duplicate fields or parents, and reserved or malformed field names are all rejected. Whatever is accepted has exactly the fields written, with no field dropped, duplicated or renamed.",
  ["inputs"], "all texts: well-formed documents and all their small mutations",
  "Tests contain a few dozen fixed malformed files whose assertions no longer run to completion.",
  [PA, UT], [("check_value_end", PA), ("parse_field / parse_field_value_pair", PA), ("is_value_end_char / is_reserved", UT)], ["Obj::from_str"])

p("C15", "Nesting is limited to exactly 64 levels, however it is written",
  "Counting the document itself as level 1, a document whose objects, arrays and tuples nest at most 64 levels is accepted and one that nests deeper is rejected with an error, in any mix of containers, an include counting as one level too. The limit counts the nesting of the resulting value, so levels reached through variables, globals, parents and included files count too, and what is accepted can always be written and read back.",
  ["inputs"], "all nestings around the limit, through every mixture of brackets, references, parents and includes",
  "Two fixed error files go far beyond the limit; nothing tests the boundary itself or nesting built by reference.",
  [PA, "src/parse/mod.rs"], [("MAX_DEPTH checks", PA)], ["Obj::from_str", "Obj::from_file"], [("depth", "current nesting level", PA)])

p("C16", "Layout never changes meaning: whitespace and comments are interchangeable",
  "Two documents that differ only in the whitespace between tokens (any amount of any whitespace characters, including none where a bracket or colon separates, and CRLF line ends) and in '#' comments running to the end of the line are read as equal objects, or are both rejected. A '#' inside a string is part of the string, and a comment may end at the end of the text.",
  ["inputs"], "all documents under all re-layouts of their tokens",
  "basic.over has a handful of comments; re-layout is a relation between pairs of inputs that no test states.",
  [PA, UT], [("find_char", PA), ("is_whitespace", UT)], ["Obj::from_str"])

p("C17", "Typed accessors return the value for its own type and a precise error otherwise",
  "For every value and every typed getter, on the value or on an object's field, the getter returns exactly the stored data if the type matches (an Int may also be fetched as an equal Frac) and otherwise a type-mismatch error naming the expected and the actual type. A field found in neither the object nor its ancestors gives a field-not-found error naming it, and an index beyond the end gives an out-of-bounds error naming it.",
  ["inputs"], "all values x all getters x present, inherited and absent fields",
  "set_and_get covers one value per getter and one mismatch.",
  [VA, OB, AR, TU, "src/error.rs"], [("get_fn! macros", VA + ", " + OB), ("get bounds checks", AR + ", " + TU)],
  ["Value::get_*", "Obj::get_*", "Arr::get", "Tup::get"])

p("C18", "Equality is structural: same content is equal, any difference is not",
  "Two values are equal exactly when they have the same type of data and the same content, recursively, including the presence and content of parents, and irrespective of how, when or where they were built or whether they share instances. Equality is reflexive, symmetric and transitive, Int never equals Frac, and changing, adding, or removing any one field, element or parent anywhere inside a value makes it unequal. (Objects that differ only in field order are outside this property.)",
  ["inputs"], "all pairs of values, in particular near-identical pairs differing at one deep place",
  "Tests compare a few small values; no test changes one deep leaf at a time.",
  [OB, AR, TU, VA], [("PartialEq impls", OB + ", " + AR + ", " + TU + ", " + VA)], ["==", "!="])

p("C19", "Identity is unique, shared by references and counted exactly",
  "Every newly created array, tuple or object gets an ID different from all others in the process, on any thread; clones and references made by variable, global, parent or getter share the instance, so that ID, pointer equality and the number of references agree. The reference count of an instance is exactly the number of live handles to it plus the places inside live values that hold it.",
  ["histories", "schedules"], "all histories of creating, cloning, storing, reading and dropping containers, also from several threads at once",
  "A few counts are asserted for one document; histories and concurrent creation are not sampled.",
  ["src/lib.rs", OB, AR, TU], [("gen_id", "src/lib.rs"), ("Arc<..Inner>", OB + ", " + AR + ", " + TU)],
  ["ReferenceType::id", "ReferenceType::num_references", "ReferenceType::ptr_eq"], [("CUR_ID", "next ID", "src/lib.rs")])

p("C20", "Exactly the documented field names are valid, in the API and in text",
  "A field name is valid exactly when it is non-empty, starts with an alphabetic character or '_' and continues with alphabetic characters, ASCII digits or '_'; building an object through the checked API succeeds exactly when all its names are valid and otherwise names an invalid one. A document accepts exactly those names as fields, minus the reserved words null, true, false, Obj, Str, Arr, Tup, and reads them unchanged, and the same names prefixed with '@' (reserved words included) as globals.",
  ["inputs"], "all strings over all Unicode characters, at every position of the name",
  "Tests use ASCII names and one reserved word; character classes over Unicode are not sampled.",
  [OB, PA, UT], [("is_valid_field / is_valid_field_char", OB), ("parse_field", PA), ("is_reserved", UT)],
  ["Obj::is_valid_field", "Obj::from_pairs", "Obj::from_str"])

p("C21", "A successful file write leaves exactly the written text, failures are reported",
  "When writing an object to a file reports success, the file the path names (also through a symbolic or hard link, or a pipe) has received exactly the object's text, whatever it held before and whatever its length, and loading it gives an equal object. When the text cannot be written completely (missing directory, target not writable, no space, size limit hit part-way), an error is returned instead, and a load that cannot read its file returns an error.",
  ["inputs", "fault_sequences"], "all objects x prior file contents x write faults at any byte offset",
  "The write test only writes to a fresh file on a healthy disk.",
  ["src/util.rs", OB, CS], [("write_file_str", "src/util.rs"), ("CharStream::from_file", CS)], ["Obj::write_to_file", "Obj::from_file"])

p("C22", "Loading depends only on the text and files, not on history or other threads",
  "Loading the same text or files always gives equal objects and equal written text, or the same error, no matter what was loaded before in the process, how often, or what other threads load at the same time. Objects loaded earlier are never changed by later loads or by reading from several threads.",
  ["histories", "schedules"], "all sequences of loads of valid and invalid documents, repeated, interleaved and concurrent",
  "Each test loads a document once; state carried over between loads or threads would go unnoticed.",
  [PA, CS, "src/lib.rs"], [("per-load globals/included maps", PA), ("lazy_static sentinels and CUR_ID", PA + ", src/lib.rs"), ("CharStream owning its contents", CS)],
  ["Obj::from_str", "Obj::from_file"])

p("C23", "All views of a container agree with the values it was built from",
  "For every array, tuple and object, length, emptiness, indexing or lookup, iteration, visiting each element, and the raw reference all present exactly the values given at construction, in the given order. Containers never change after construction: values obtained earlier stay the same whatever else is built from them.",
  ["inputs", "histories"], "all containers of any size, including empty, and all derived containers (clone, concatenation, nesting)",
  "Tests read containers through one view at a time with sizes up to about five.",
  [AR, TU, OB], [("len/get/iter/with_each/values_ref/pairs_ref", AR + ", " + TU + ", " + OB)],
  ["Arr::*", "Tup::*", "Obj::len/is_empty/contains/iter/with_each/pairs_ref"])

p("C24", "Native values convert to and compare with values without loss",
  "Converting any native bool, integer of any width and sign, big integer, big rational, string or container into a value keeps it exactly, and the value compares equal to exactly that native value in both directions and in every native integer width that can represent it. It compares unequal to every other native value and to native values of other kinds, in particular integers outside the width's range, without wrapping or truncation.",
  ["inputs"], "all integers around and beyond every width's limits, all strings and rationals, all pairs of kinds",
  "Tests compare a few small integers of one width.",
  [VA, "src/macros.rs"], [("impl_from! / impl_eq! / impl_eq_int!", VA), ("int!/frac!/arr!/tup!/obj! macros", "src/macros.rs")],
  ["Value::from", "=="])

p("C25", "The displayed form of any value reads back as that value",
  "For every value of any type (nesting at most 62 levels, with legal, unique field names), its displayed text is a complete value in the text format: used after 'field:', as an array or tuple element, or as the content of an included file where that kind allows it, it is read back as a value of the same type and content. The displayed form of an object, array or tuple equals that of the value holding it, and displaying is deterministic.",
  ["inputs"], "all values and every position in which a value can be written",
  "No test uses Display of values at all.",
  [FO, VA, AR, TU, OB], [("fmt::Display impls", VA + ", " + AR + ", " + TU + ", " + OB), ("Format::format(true, INDENT_STEP)", FO)],
  ["format!(\"{}\", value)", "Obj::from_str"])

p("C26", "All ways to construct a value agree",
  "The macros obj!, try_obj!, arr!, try_arr!, tup!, int! and frac!, the conversions (TryFrom, From), Default, empty and, on input the checked constructors accept, the unchecked constructors all make the same value as the checked constructor given the same fields, elements and parent ('^' in obj!): same content and types, displayed, written and counted alike, holding the very instances given. The try_ macros give an error exactly where the checked constructor does, or where '^' is not an object, and the others panic exactly there; each name and value expression is evaluated once, in order, and means what it means outside the macro. The macros can be used wherever an expression can stand, imported or by their path.",
  ["inputs"], "all lists of fields and elements with legal and illegal names, parents and types, all native numbers, and all places of an expression in a program",
  "Tests use the macros with literal fields only, to make expected values; a constructor is never compared with another, and try_obj! is never used as an expression.",
  ["src/macros.rs", OB, AR, TU], [("obj!/try_obj!/arr!/try_arr!/tup!/int!/frac!", "src/macros.rs"), ("from_pairs, from_values, *_unchecked, empty, Default, TryFrom/From", OB + ", " + AR + ", " + TU)],
  ["macros", "Obj::from_pairs", "Arr::from_values", "Tup::from_values"])

p("C27", "Errors name what is wrong",
  "Every error says which thing is at fault: a missing, illegal, reserved or duplicate field or global is named as it was given; an index out of range by its number; a type clash by the types that were expected and found, in these roles, with the type of an array being the one its elements have had so far; an operator that cannot be applied by its symbol and the types of its operands in their order; an illegal character, escape or bracket by itself (and the bracket that was expected); a bad include by its path as written. Types are displayed unambiguously: two types are displayed alike exactly when they are strictly the same.",
  ["inputs"], "all types, names, indices, characters, paths and operand types that can stand in a fault",
  "The error tests compare some sixty fixed messages, and the test over them fails in this toolchain and so settles nothing.",
  [ER, "src/error.rs", TY, PA, AR, OB], [("Display for ParseError", ER), ("Display for OverError", "src/error.rs"), ("Display for Type", TY), ("parse_err calls", PA)],
  ["OverError and its Display", "Type's Display"])

p("C28", "Nothing is left behind by loading, using and dropping",
  "Once everything a piece of work returned has been dropped, nothing of it remains: loading texts and files (successfully or not, however often), reading, comparing, copying, displaying and writing values and dropping them in any order leave the process with the memory, open files, working directory, environment, threads, signal settings and panic hook it had before, apart from what is set up once at first use; files are neither created, changed nor removed, apart from the one named in a write, and nothing is printed.",
  ["inputs", "histories"], "all repetitions of loads, failing loads, uses, writes and drops in any order, over all documents and values",
  "Tests run every load once in a short-lived process; leaked memory, handles and files never show.",
  [PA, CS, OB, "src/util.rs"], [("Arc-based ownership, no cycles", OB + ", " + AR + ", " + TU), ("included map and globals dropped with the load", PA), ("CharStream::from_file", CS), ("write_file_str", "src/util.rs")],
  ["Obj::from_str", "Obj::from_file", "Obj::write_to_file", "Drop"])

p("C29", "Written text is determined by content alone, and determines it",
  "The text of a value (display and write_to_string) depends on nothing but its content: not on how it was made (API, text, file, macros, sums, references), on what instances are shared, on identity, on the layout of the document it came from, or on what was displayed before. Values that differ in content or type are written as different texts, and reading and writing again gives the same text.",
  ["inputs"], "all values, all ways of making them, all sharing patterns, and all pairs that differ in one place",
  "The write test compares one document with its text.",
  [FO, OB, AR, TU, VA], [("Format impls", FO), ("write_to_string and Display impls", OB + ", " + AR + ", " + TU + ", " + VA)],
  ["Obj::write_to_string", "Display of Obj, Arr, Tup, Value"])

p("C30", "A file loads exactly as its text does",
  "Loading a file (or pipe) gives the same object, or is rejected with the same message and position (with the file's name added), as loading its text from a string, character for character, whatever it consists of and however its path is spelled. Including it as an object gives that object as well, including it as Str gives exactly its characters, and including it as Arr or Tup gives what the same text gives in brackets. A file whose bytes are not UTF-8 text is rejected in each of these ways.",
  ["inputs"], "all texts of any size, including byte order marks, carriage returns, NUL and no final newline, valid and broken, in files, pipes and strings",
  "Tests read only files with plain content; strings and files are never compared.",
  [CS, PA], [("CharStream::from_file / from_string", CS), ("parse_obj_file / parse_obj_str / parse_obj_file_includes / parse_arr_file / parse_tup_file", PA)],
  ["Obj::from_file", "Obj::from_str", "includes"])

p("C31", "No input makes the library access memory wrongly",
  "Whatever is loaded (text, bytes, files, pipes, of any size, valid or not) and whatever is then done with the result through the safe API, no memory is accessed outside of live allocations, freed twice, or used after it was freed.",
  ["inputs", "histories"], "all texts and files of all sizes, and all uses and drop orders of the values, under a memory error detector",
  "The character stream keeps an iterator with a forged 'static lifetime into the string it owns; a wrong access need not change any result a test compares.",
  [CS], [("mem::transmute in CharStream::from_string_impl, sound only while contents is neither moved out, grown nor dropped", CS), ("CharStream::clone sharing Inner", CS)],
  ["Obj::from_str", "Obj::from_file", "every safe method"])

p("C32", "A value answers by its content alone, whatever happened before or elsewhere",
  "What a value displays as, its type, the results and errors of its getters, its parts, and what it equals depend on its content only: asking for them changes neither it nor any other value, the answers stay the same for as long as the process lives, are the same for any other value of the same content (also one made after others were dropped), and are the same on every thread, while other threads use the same values, make others or fail to.",
  ["histories", "schedules"], "all histories of operations on several values that share parts, resemble each other, or take each other's place, and all interleavings of such operations on several threads",
  "Tests ask each value once, on one thread.",
  [FO, OB, AR, TU, VA], [("Format impls and Display", FO), ("PartialEq impls and getters of shared immutable Arcs", OB + ", " + AR + ", " + TU + ", " + VA)],
  ["Display and write_to_string", "==", "getters", "get_type"])

p("C33", "Memory and reading effort stay in proportion to the text; sharing is free",
  "For any kind of content, what loading takes (memory at its peak and altogether, and characters looked at) and what the result keeps grow in proportion to the number of repetitions of that content, not faster, and so do writing, displaying and comparing; the same goes for documents rejected at their end. Using a container again (by a variable, a dotted path, an inherited field, a parent, an include, or by copying it through the API) costs a constant amount, however large the container is (for a tuple, besides what its type takes). (Sums of strings or arrays and decimals may allocate more altogether, but not keep more.)",
  ["inputs"], "all kinds of content and all numbers of repetitions of them",
  "Tests use tiny documents, where any cost is affordable.",
  [PA, CS, FO, AR, TU, OB, VA], [("shared Arc-based containers", OB + ", " + AR + ", " + TU), ("one shared CharStream per file", CS), ("Format impls", FO), ("included map", PA)],
  ["Obj::from_str", "Obj::write_to_string", "Display", "==", "Clone", "Obj::get, from_pairs, Arr::from_values, Tup::from_values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
