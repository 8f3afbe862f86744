#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
G="src/dbml.pest"; P="src/parser/mod.rs"; A="src/analyzer/mod.rs"; X="src/analyzer/indexer.rs"; H="src/analyzer/helper.rs"; E="src/analyzer/err.rs"; L="src/lib.rs"; U="src/utils/mod.rs"
def m(name, where): return {"name": name, "where": where}
T="The test suite compares the parse tree of about thirty fixed sample files with stored dumps and runs the checked parser on a single accepted sample; "
R=[]
def p(id,title,st,qt,why,files,mech,observe,hook=None,over=("inputs",)):
    R.append({"id":id,"title":title,"statement":st,"quantifier":{"over":list(over),"text":qt},"why_tests_cant":T+why,"anchors":{"files":files,"mechanism":mech,"observe_at":observe,"hook_needed":hook}})
PU="parse_dbml_unchecked"; PC="parse_dbml"
p("C01","Parsing any text ends with a tree or an error, never a panic",
 "For every UTF-8 text, both the checked and the unchecked parser terminate and return either a schema or an error. They never panic, overflow an integer, index out of bounds or hit an `unreachable` branch, whatever combination of declarations, types, arguments, defaults and settings the text contains.",
 "every UTF-8 text",
 "no test feeds malformed or unusual text, so none can exclude a panic.",
 [G,P,A,X,H],[m("grammar rules matched one to one by the tree builders; every other rule goes to unreachable!/throw_rules",P),m("throw_err builds a pest Span from stored ranges and unwraps it",E),m("argument and default checks index into argument lists",A)],[PC,PU])
p("C02","The checked parser returns exactly the unchecked tree, or an error",
 "When the checked parser accepts a text, the tree it returns is identical in every field to the one the unchecked parser returns for that text. When the unchecked parser rejects a text, the checked parser rejects it with the same error, and parsing the same text again gives the same result.",
 "every text",
 "the checked result is never compared with the unchecked one.",
 [L,A,P],[m("parse_dbml = unchecked parse, then analysis by shared reference",L)],[PC,PU])
p("C03","Every span and raw text in the tree points at its source text",
 "Every node's span lies inside the input on character boundaries and covers its construct from its first character to its last, apart from trailing layout (for a reference: its endpoints and settings; for an indexes block: its braces). List items lie in source order inside the span of the node that lists them, and for identifiers, literals and column types the stored raw text equals the input text of the span exactly.",
 "every accepted text",
 "the stored dumps pin the spans of fixed samples only.",
 [P,"src/parser/helper.rs","src/ast"],[m("s2r and pair.as_str() of the same pair in each builder",P)],[PU])
p("C04","Identifiers keep their exact text, quoted or not, in every position",
 "In every position that takes a name (project, schema, table, alias, column, enum, enum value, reference endpoint, reference name, index column, group, group item) an unquoted name of letters, digits and underscores yields that text, and a double-quoted name yields exactly the characters between the quotes, spaces and non-ASCII included. A name that merely begins with or equals a keyword such as note, ref, indexes, table or as is an ordinary name wherever a name is expected.",
 "every name, in every name position",
 "the samples use a few dozen plain names.",
 [G,P],[m("ident, var, double_quoted_string rules",G),m("parse_ident, parse_decl_ident, parse_ref_ident",P)],[PU])
p("C05","String and expression literals keep their content verbatim",
 "The value of a single-quoted, triple-quoted, double-quoted or backquoted literal is exactly the text between its quotes, with newlines, other quote characters, braces, commas, comment markers and non-ASCII characters untouched; only whitespace right after an opening ' or ''' is left out. This holds in every position that takes a literal: notes, defaults, project properties, settings and index expressions.",
 "every literal content, in every literal position",
 "the samples contain a handful of literals.",
 [G,P],[m("single/triple/double/backquoted rules",G),m("parse_string_value, parse_value, parse_attribute, parse_note_decl, parse_indexes_ident",P)],[PU])
p("C06","Scalar literals denote exactly the value written",
 "An integer literal yields that exact 64-bit integer, or an error if it does not fit; a decimal literal yields the nearest double; true, false and null yield those values; #rgb and #rrggbb yield the colour text; any other bare word sequence yields itself as an unquoted value. No literal is silently truncated, wrapped, or taken for another kind.",
 "every scalar literal, as default, setting value, property value or type argument",
 "only a few small numbers and words occur in the samples.",
 [G,P,"src/ast/unit.rs"],[m("value, number_value, boolean_value, hex_value, spaced_var rules",G),m("parse_value, Value::from_str",P)],[PU])
p("C07","Layout, comments and keyword case do not change the meaning",
 "Adding or removing blanks, tabs, line breaks, // comments or /* */ comments between the tokens of a document (around braces, brackets, parentheses, commas, colons, relation signs, after a complete item) changes nothing in the tree but positions and the retained source text, and neither does it change the verdict of the checked parser. The same holds for writing the block keywords Project, Table, as, TableGroup, Enum, Ref, Note and Indexes in any letter case.",
 "every document and every placement of layout between tokens",
 "each sample has one fixed layout.",
 [G],[m("WHITESPACE and COMMENT implicit rules; ^\"...\" keywords",G)],[PU,PC])
p("C08","Every declaration appears in the tree exactly once, in order",
 "The tree lists exactly the project, table, group, enum, reference and note declarations of the text, each once, in source order and with its own name, schema, alias, note, settings, columns, values and items in source order; nothing is dropped, merged, duplicated or invented, except that of several notes or several indexes blocks of one declaration the last one counts. The per-kind views of the tree list the same declarations in the same order.",
 "every sequence of declarations and members",
 "the samples fix a few dozen sequences.",
 [P,"src/ast/schema.rs"],[m("parse_schema folding pairs into blocks, the decl builders, the view accessors",P)],[PU])
p("C09","Column settings are read exactly as written",
 "For every column, the primary-key, unique, nullability, increment, note and default information in the tree is exactly what its settings list states, independent of the order of the settings and of other settings or unknown keys in the list. The attribute list holds every non-reference setting with its key and value, and the reference list every inline reference, each in order.",
 "every settings list",
 "only a few combinations occur in the samples.",
 [G,P,"src/ast/table.rs"],[m("parse_col_settings, parse_attribute",P)],[PU])
p("C10","Column types keep name, schema, arguments and array dimensions",
 "A column type written with optional schema, name, arguments and array dimensions, quoted or not, yields exactly that (schema-qualified) name, that argument list and those dimensions in order, with the written text kept as raw. A dimension or argument that does not fit its integer type is rejected instead of altered.",
 "every column type spelling",
 "the samples use about twenty spellings.",
 [G,P],[m("col_type rules",G),m("parse_col_type, build_type_name_with_schema, parse_col_type_arg",P)],[PU])
p("C11","References keep their endpoints, cardinality, name and actions",
 "A reference written inline, in short form or as a block yields the written cardinality (<, >, -, <>), the written left and right endpoint with schema, table and column list in order, its name, and the delete and update actions exactly as stated. The three forms of the same relationship yield the same endpoints and cardinality.",
 "every reference",
 "a few references occur in the samples.",
 [G,P,"src/ast/refs.rs"],[m("ref rules",G),m("parse_ref_decl, parse_ref_stmt, parse_ref_inline, parse_ref_ident, parse_rel_settings, Relation and ReferentialAction from_str",P)],[PU])
p("C12","Index definitions keep their columns, expressions and settings",
 "Each definition in an indexes block yields its columns and expressions in order, and the pk, unique, type, name and note information exactly as its settings list states, whatever their order and whatever other definitions surround it. The attribute list holds every setting with its key and value, in order.",
 "every indexes block",
 "one sample has a small indexes block.",
 [G,P,"src/ast/indexes.rs"],[m("indexes rules",G),m("parse_indexes_block, parse_indexes_single_multi, parse_indexes_ident, parse_indexes_settings",P)],[PU])
p("C13","Malformed documents are rejected as a whole, with a location inside",
 "A text that is not a sequence of complete, well-formed declarations is rejected by both parsers: a missing or extra delimiter, separator or mandatory part, trailing text, an unknown index type or an unknown referential action keyword never yields a tree. A text that is such a sequence is accepted by the unchecked parser, and every error reports a location within the text, on a character boundary.",
 "every deletion, insertion or replacement of a delimiter or token in a well-formed document, and every short text",
 "no test feeds a malformed text.",
 [G,P,"src/parser/err.rs"],[m("schema rule anchored at SOI and EOI",G),m("IndexesType::from_str, ReferentialAction::from_str errors",P)],[PU,PC])
p("C14","Names must be unique in their scope, and only there",
 "The checked parser rejects a document in which two tables of a schema, two columns of a table, two enums of a schema, two values of an enum, two groups, or two table aliases have the same name, where a missing schema means public. It never rejects a document for a name reused across different schemas, tables, enums or kinds.",
 "every assignment of names to declarations",
 "the only checked sample is free of clashes.",
 [X],[m("index_table, index_enums, index_table_groups",X)],[PC])
p("C15","Exactly one project is required, with unique properties",
 "The checked parser rejects a document with no project declaration or with more than one, and a project in which a property key occurs twice. It accepts exactly one project anywhere in the document with any set of distinct property keys.",
 "every number and position of projects and every property list",
 "the only checked sample has one project.",
 [A,H],[m("project count check, check_prop_duplicate_keys",A)],[PC])
p("C16","A setting key may occur only once in a settings list",
 "The checked parser rejects a document in which any settings list (of a table, column, enum value, index definition, reference or table group) contains the same key twice, wherever the two stand and whatever their values. Distinct keys, and the same key in different lists, are never rejected for it; inline references may repeat.",
 "every settings list of every kind",
 "no sample has a repeated key.",
 [H,X,A],[m("check_attr_duplicate_keys and its call sites",H)],[PC])
p("C17","Every reference must resolve to existing tables and columns",
 "The checked parser accepts a reference only if both endpoints, name an existing table and existing columns of that table, with the same number of columns on both sides. An unqualified name means the table of that name in public, or else the table with that alias; a missing schema means public. A reference whose endpoints all exist is never rejected as unresolved, whatever the schema, alias, form and declaration order.",
 "every set of tables, schemas, aliases and references",
 "the checked sample contains only resolvable references.",
 [X],[m("resolve_ref_alias, lookup_table_fields, composition length check",X)],[PC])
p("C18","Referencing columns must have identical types",
 "The checked parser accepts a reference only if each pair of corresponding columns has the same type, the same type arguments and the same array dimensions; synonyms such as int, integer and int4 are the same type, and enums are the same only if name and schema agree. Columns with identical types are never rejected for a type mismatch.",
 "every pair of column types, in single and composite references",
 "the checked sample contains only matching types.",
 [X,A,"src/ast/table.rs"],[m("validate_ref_type type comparison",X),m("ColumnTypeName::from_str",  "src/ast/table.rs")],[PC])
p("C19","References must point at keys as their cardinality requires",
 "The checked parser accepts a one-to-many or many-to-one reference only if the columns on the 'one' side are a primary or unique key, a one-to-one only if at least one side is, and a many-to-many only if both sides are; a key may be declared on the column or, for one or several columns, in the indexes block over exactly those columns. A reference that meets its requirement is never rejected for it.",
 "every combination of cardinality and keys, single and composite",
 "the checked sample contains only valid references.",
 [X],[m("validate_ref_type key checks, is_valid_composite",X)],[PC])
p("C20","Conflicting relations are rejected, compatible ones accepted",
 "The checked parser rejects a document in which two many-to-one relations (in either spelling) start from the same columns, or two many-to-many or two one-to-one relations join the same two endpoints in either direction, whether written inline, standalone, by alias or by qualified name. Relations that do not coincide in this way are never rejected as conflicting.",
 "every set of relations",
 "the checked sample contains no conflict.",
 [X,A],[m("occupy_same_column and the count over all relations",X)],[PC])
p("C21","At most one primary key, not nullable and not an array",
 "The checked parser rejects a table with more than one primary key declaration (on columns or in the indexes block, composite included), a primary-key column declared null or of an array type, and a column declared both null and not null. Tables with at most one such declaration and no such contradiction are never rejected for it.",
 "every distribution of key and nullability settings over columns and indexes",
 "the checked sample contains no such contradiction.",
 [A],[m("per-column and per-index primary key checks",A)],[PC])
p("C22","Index definitions must be well-formed and distinct",
 "The checked parser rejects an index over no column or over a column the table lacks, an index that is more than one of pk, unique and typed, and an index that repeats another unique key of the table over the same columns or another index with the same column list and the same type (or both without settings). Other definitions, expression columns included, are never rejected for it.",
 "every indexes block over every table",
 "the checked sample has no indexes block.",
 [A],[m("indexes validation loop",A)],[PC])
p("C23","Type arguments must match what the type takes",
 "The checked parser rejects a column whose built-in type has arguments that do not fit it: one integer for char, varchar, bit, varbit, time and timestamp types, two integers for decimal, none for any other, in all their synonyms. Correct or absent arguments are never rejected.",
 "every built-in type and argument list",
 "the checked sample uses no wrong arguments.",
 [A,"src/ast/table.rs"],[m("argument count and kind check",A)],[PC])
p("C24","A default value must fit the column type",
 "The checked parser rejects a string default whose length in characters differs from n for char(n) and bit(n) or exceeds n for varchar(n) and varbit(n), an integer default outside the range of smallint or integer, a boolean default on a column that is not boolean, and a null default on a column not declared null. Defaults within those limits, the boundary values included, are never rejected.",
 "every default value against every column type",
 "the checked sample has a few harmless defaults.",
 [A],[m("default value validation",A)],[PC])
p("C25","The default of an enum column must be one of the enum's values",
 "When a column's type is not a built-in one and it has a non-null default, the checked parser accepts it only if an enum with that name exists in the named schema (public if none is named) and the default is one of its values, written bare or quoted. A default that is a value of the right enum is never rejected, whatever the order of declarations.",
 "every enum, schema and default",
 "the checked sample has one such default at most.",
 [A,X],[m("lookup_enum_values",X)],[PC])
p("C26","Table groups list existing tables, each once",
 "The checked parser rejects a table group with an item that is neither an existing table (of the written schema, or of public) nor an alias, and a group that lists the same table twice, also when once by name and once by alias or qualified name. Groups over existing distinct tables are never rejected, and a table may belong to several groups.",
 "every set of tables, aliases and groups",
 "the checked sample has one valid group at most.",
 [X],[m("index_table_groups",X)],[PC])
p("C27","The verdict does not depend on the order of declarations",
 "Permuting the top-level declarations of a document, the columns of a table, the values of an enum, the definitions of an indexes block or the two sides of a reference (with the relation sign mirrored) never changes whether the checked parser accepts it.",
 "every document and permutation",
 "one order is tried.",
 [A,X],[m("declarations are collected and indexed before they are checked",A)],[PC])
p("C28","Equivalent spellings of the same names give the same verdict",
 "Replacing an unqualified table name by its public-qualified form, a table name by its alias, an unquoted name by its quoted form, or consistently renaming a table, column, enum, value, alias or group to a fresh name never changes whether the checked parser accepts a document, in references, groups and types.",
 "every document and every such replacement",
 "no two spellings are compared.",
 [X,A,P],[m("DEFAULT_SCHEMA normalisation, resolve_alias, ident to_string",X)],[PC])
p("C29","Table relations are partitioned exactly into to, by and self",
 "For every table of an accepted document, the relation query returns each inline or standalone relation that has the table on both sides as self, on the left only as outgoing, on the right only as incoming, each exactly once, in order, and no other relation. Aliases, missing and explicit schemas are resolved on both sides.",
 "every accepted document and every table in it",
 "the query is not tested at all.",
 [U,X,A],[m("get_table_refs over the analyzer's relation list",U)],["get_table_refs"],"analyze and its result types are exported under cfg(dbml_verif)",("inputs","histories"))
p("C30","A semantic error names the violated rule and points at the culprit",
 "When a document violates exactly one semantic rule, the checked parser's error message is the one of that rule, with the offending names, types or values in it where the message has them. The reported location lies inside the declaration that violates the rule (the whole document for a missing or duplicate project).",
 "every document with a single violation",
 "no semantic error is tested at all.",
 [E,A,X],[m("throw_err with the span of the offending node",E)],[PC])
p("C31","A declaration is read the same whatever stands before and after it",
 "The tree of a text made of two texts, each accepted on its own, one after the other on separate lines is the tree of the first followed by the tree of the second, positions moved accordingly, and an unfinished or malformed text does not become acceptable by what precedes it. Every declaration of an accepted text, cut out at its span, is accepted on its own and yields the same subtree (a reference, whose span starts at its left endpoint, after the keyword and without its name).",
 "every accepted text and every pair of texts",
 "no test relates the results for two texts.",
 [G,P],[m("schema rule repeats declarations; builders work on one pair at a time",P)],[PU],None,("inputs","histories"))
p("C32","Unrelated declarations and members never change a verdict",
 "Adding correct declarations under fresh names, columns, values, properties or index definitions under fresh names, or settings under fresh keys to a document, anywhere and in any number, never changes whether the checked parser accepts it. A rule violation is found wherever it stands among them, and a valid document stays valid.",
 "every document, every set of fresh additions and every place for them",
 "the one checked sample is fixed.",
 [A,X,H],[m("rules are checked against maps and sets of all names; loops run over all declarations",A)],[PC],None,("inputs","histories"))
p("C33","Notes, properties and settings lists are kept exactly as written",
 "For every project, table, table group, enum value, index definition and reference, the tree holds exactly the written properties or settings, in order, each with its key and its value of the written kind, or without one. The notes, database type, index name and similar fields derived from them hold exactly the stated value, are absent when not stated, and are attached to the declaration that states them.",
 "every list of properties, settings and notes, in every declaration that takes one",
 "the samples use a few settings with common keys.",
 [P,G],[m("parse_property, parse_attribute, parse_note_decl and the matches on setting keys",P),m("from_str of the database type","src/ast/project.rs")],[PU])
p("C34","Text conversions of the public types are exact",
 "Converting text to a relation, referential action, index type, scalar word or built-in column type succeeds exactly for the documented words, synonyms included, and yields the member they denote; any text converts to a database type, which keeps unknown names. Converting a value or an action to text yields the text it was written as, numbers in plain decimal notation.",
 "every text, every value",
 "no test calls the conversions with anything but the words of the samples.",
 ["src/ast/table.rs","src/ast/unit.rs","src/ast/refs.rs","src/ast/indexes.rs","src/ast/project.rs"],[m("FromStr and ToString implementations","src/ast")],["from_str","to_string"])
p("C35","Every error has a true position and can be printed",
 "Every error of the checked parser, syntactic or semantic, has a location inside the input on character boundaries, its line and column are those of that location, and converting it to text succeeds and yields a non-empty message.",
 "every rejected text",
 "no test looks at an error.",
 [E,"src/parser/err.rs",P,A],[m("throw_err, throw_msg, throw_rules build pest errors from spans",E)],[PC])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for r in R:
        assert len(r["title"])<=80,(r["id"],len(r["title"]))
        f.write(json.dumps(r)+"\n")
