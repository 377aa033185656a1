#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

prop("T01", "Types survive conversion to and from protobuf",
 "Converting any supported type to its protobuf form and back yields an equal type: same kind, nullability, type-variation reference, every parameter (length, precision, scale, anchor, UDT parameters) and every nested component in order. Conversely, parsing any well-formed protobuf type and serialising it again reproduces the same message.",
 ["inputs"], "every type tree (all simple, parameterised, list/map/struct/function, interval, user-defined types; any nullability, variation reference, parameter values), in both directions",
 "Tests convert a fixed table of types with fixed parameters and mostly nullability required and variation 0; the claim covers all combinations and nestings.",
 ["types/types.go", "types/interval_compound_type.go", "types/interval_day_type.go", "types/interval_year_month_type.go", "types/precison_timestamp_types.go"],
 [("TypeToProto / TypeFromProto", "types/types.go"), ("per-type ToProto", "types/*.go")],
 ["types.TypeToProto(types.TypeFromProto(p)) against p", "named struct and plan schema round trips"])

prop("T02", "Type equality is exact and type values behave as immutable values",
 "Two types compare equal exactly when they have the same kind, nullability, variation reference, parameters and components, and the comparison is reflexive, symmetric and transitive. Deriving a type from another (changing nullability, concatenating structs, reading parameters, resolving or matching functions with it) gives a type that differs only in what was asked and never changes the original.",
 ["inputs", "histories"], "every pair of types (including pairs that differ in exactly one attribute at any depth) and every sequence of derivations from a type value",
 "Tests compare a few hand-picked pairs; single-attribute differences at depth and aliasing between a derived value and its source are not sampled.",
 ["types/types.go", "types/interval_day_type.go", "types/interval_compound_type.go", "types/any_type.go"],
 [("Equals methods", "types/types.go"), ("WithNullability / WithPrecision", "types/types.go"), ("RecordType.Concat", "types/types.go")])

prop("T03", "Type expressions parse to what they spell and print back losslessly",
 "Parsing a type expression of the Substrait grammar of a supported type yields the kind, nullability, parameters and nested types it spells, whatever the letter case or the white space, and printing the parsed type and parsing it again gives the same type. Text that is not a type expression, or whose integer parameters do not fit in 32 bits, is rejected with an error, never accepted as some other type and never a crash.",
 ["inputs"], "every type expression generated from the grammar, and arbitrary or mutated strings",
 "Tests parse a list of example strings; grammar-wide combinations (nested parameters, nullable containers, UDTs, function types, derivation programs) and malformed text are open-ended.",
 ["types/parser/parse.go", "types/parser/visitor.go", "types/parser/util/error_listener.go", "types/types.go"],
 [("ParseType", "types/parser/parse.go"), ("TypeVisitor", "types/parser/visitor.go"), ("String methods", "types/*.go")])

prop("L01", "Literals survive conversion to and from protobuf",
 "Serialising any literal (every scalar kind, null, list, map, struct, empty list and map, user-defined) and parsing it back gives a literal equal to the original with the same value, type, nullability and type-variation reference. Conversely, parsing any well-formed literal message and serialising it reproduces the same message.",
 ["inputs"], "every literal value of every type, nested to any depth, nullable or not, with any type variation; every well-formed literal message",
 "Tests round-trip a few dozen literal values; boundary values, negative times, nested nulls, nonzero variations and the zero precision unit are not covered together.",
 ["expr/literals.go", "expr/interval_compound_literal.go", "expr/interval_year_to_month.go"],
 [("LiteralFromProto", "expr/literals.go"), ("ToProtoLiteral / ToProto", "expr/literals.go")])

prop("L02", "Literal constructors keep exactly the value given, or refuse it",
 "A literal built from a Go value, decimal string, ISO-8601 text, time, duration or bytes denotes exactly that value, with the precision, scale or length the value has or that was asked for, and a value that cannot be represented is refused with an error rather than wrapped, overflowed or rounded to another value; a time given finer than the resolution asked for is cut down to that resolution, also before the epoch. Decimals decode back to the number that was written, at every precision from 1 to 38 and every scale.",
 ["inputs"], "every constructor of the literal package and the decimal helpers, over all values including negatives, limits, sub-second parts and malformed text",
 "Tests use a handful of round values; floating-point rounding of fractional seconds, sign handling and 32-bit overflow appear only for particular numbers.",
 ["literal/utils.go", "expr/decimal_util.go", "expr/literals.go"],
 [("New* constructors", "literal/utils.go"), ("DecimalStringToBytes / DecimalBytesToString", "expr/decimal_util.go"), ("NewLiteral", "expr/literals.go")])

prop("L03", "The printed value of a literal is the value it holds",
 "The plain and ISO text forms of every literal (dates, times, timestamps at every precision, intervals, decimals, strings, binary) denote exactly the stored value, so that reading the text back by its standard format gives the value again, and nested lists, maps and structs print the texts of their elements in order. Different values of one type never print the same text.",
 ["inputs"], "every literal value of every printable kind, including negative and pre-epoch values and every sub-second precision",
 "Tests print a few fixed values, mostly positive; sign, padding and precision handling are per-digit behaviours.",
 ["expr/literals.go", "expr/interval_compound_literal.go", "expr/interval_year_to_month.go", "types/precison_timestamp_types.go"],
 [("ValueString / IsoValueString", "expr/literals.go"), ("GetTimeValueByPrecision", "types/precison_timestamp_types.go")])

prop("E01", "Expressions survive conversion to and from protobuf",
 "Serialising any expression (literals, field references, scalar, window and aggregate function calls with options, sorts, phases, invocations and bounds, casts, conditionals, switch, in-lists, nested constructors, lambdas, dynamic parameters, subqueries) and parsing it against the same schema, extensions and registry gives an equal expression with the same type, and serialising that again gives the same message. The same holds for extended expressions.",
 ["inputs", "programs"], "every expression tree over every input schema",
 "Tests round-trip fixed documents with one node kind each; combinations of optional fields and nesting are unbounded.",
 ["expr/expression.go", "expr/functions.go", "expr/field_reference.go", "expr/lambda.go", "plan/subquery.go"],
 [("ExprFromProto / ToProto", "expr/expression.go"), ("function call (de)serialisation", "expr/functions.go")])

prop("E02", "Expression equality is an equivalence that separates distinct expressions",
 "Expression equality is reflexive, symmetric and transitive, holds between an expression and an independently built copy, and is false whenever two expressions differ in any operand, operand count or order, function, option, bound, sort, phase, invocation, reference path, literal value, type or nullability. (A subquery equals another only if it is over the same relation; a reference whose type is not known may equal a typed one.) Comparing never panics.",
 ["inputs"], "every pair of expressions without subqueries, in particular a tree and the same tree with one change at any depth",
 "Tests compare few pairs; the single-difference neighbourhood of every node kind is large and the asymmetric cases need both argument orders.",
 ["expr/expression.go", "expr/functions.go", "expr/field_reference.go", "expr/literals.go", "expr/lambda.go"],
 [("Equals / Equal methods", "expr/*.go")])

prop("E03", "Visiting an expression reaches every child once and rewrites only what is asked",
 "Visiting an expression presents each direct operand to the callback exactly once, in order (a field reference is a leaf); a callback that returns its argument yields the same expression, and a callback that replaces operands yields an equal expression except for exactly those operands. The original expression is never changed.",
 ["inputs", "programs"], "every expression tree, every subset of replaced operands",
 "Tests visit a few shapes with one replacement; the copy-on-write logic differs per position (first, last, else, option) and per node kind.",
 ["expr/expression.go", "expr/functions.go", "expr/lambda.go"],
 [("Visit methods", "expr/expression.go"), ("VisitFunc", "expr/expression.go")])

prop("E04", "Field references have the type found by walking their path in the schema",
 "The type of a field reference is the type reached by following its path (struct fields, list offsets, map keys) through the schema it is rooted in, at build time, after parsing and inside joins and lambdas, and the reference keeps that path. A path that leaves the schema or steps into a value of the wrong kind is refused with an error, at build and at parse time.",
 ["inputs"], "every schema, every path valid or not, every root kind",
 "Tests use shallow struct paths; type resolution is a recursive walk with boundary conditions on each index.",
 ["expr/field_reference.go", "expr/builder.go", "plan/builders.go"],
 [("NewFieldRef / GetType / FieldReferenceFromProto", "expr/field_reference.go"), ("RootFieldRef, JoinedRecordFieldRef", "plan/builders.go")])

prop("E05", "Typed constructs are only built well-typed, by every route alike",
 "Every route that builds an expression (direct constructors, the fluent builder) accepts and refuses the same inputs and yields equal expressions; what is accepted has a type consistent with its parts: a conditional's or switch's branches agree with its reported type, lambda bodies only use declared parameters, function arguments match the declaration. Ill-typed or incomplete input gives an error, never a panic and never a nil expression.",
 ["inputs"], "every builder call tree with well-typed, ill-typed, missing and nil parts",
 "Tests cover one success and one failure per builder; agreement of the routes over all inputs is relational.",
 ["expr/builder.go", "expr/expression.go", "expr/functions.go", "expr/lambda.go"],
 [("ExprBuilder", "expr/builder.go"), ("New* constructors", "expr/expression.go, expr/functions.go")])

prop("E06", "What a call or expression reports about itself follows from its declaration",
 "A scalar, aggregate or window function call, however it was made (constructor, fluent builder, read from protobuf, cloned), reports the name and identifier of the function, the arguments, argument types, options, phase and invocation it was given, and of its declaration in the extension file: determinism, session dependence, variadic behaviour, decomposability, intermediate type, ordering, maximal set size and window type. An aggregate used as a window function reports the same, as a streaming window. An expression says it is scalar exactly if there is no window function and no lambda among its operands, at any depth.",
 ["inputs", "configurations"], "every declaration with any combination of attributes, called by every route; every expression tree",
 "Tests look at one or two attributes of a few standard functions, nearly all of which have the default attributes; a wrong or swapped attribute shows only for declarations which set it.",
 ["expr/functions.go", "expr/expression.go", "expr/lambda.go", "plan/subquery.go"],
 [("ScalarFunction / AggregateFunction / WindowFunction accessors", "expr/functions.go"), ("IsScalar", "expr/*.go")])

prop("F01", "A call matches a function signature exactly when its arguments fit",
 "A function declaration matches an argument list exactly when the count is allowed (fixed arity, or the variadic minimum and maximum) and every argument has the declared kind and parameters, with nullability respected as its mode demands; type resolution accepts the same calls that matching accepts. Per-position matching and argument-count bounds agree with whole-list matching.",
 ["inputs", "configurations"], "every declared signature (scalar, aggregate, window; any nullability mode; variadic min/max) against every argument list",
 "Tests try a few calls against standard functions; arity limits, prefix arguments before a variadic tail and discrete nullability combine freely.",
 ["extensions/variants.go", "types/types.go", "types/parameterized_*.go"],
 [("Match / MatchAt / matchArguments", "extensions/variants.go"), ("MinArgumentCount / MaxArgumentCount", "extensions/variants.go")])

prop("F02", "A call's result type has the declared shape and the right nullability",
 "Resolving a call against a declaration yields the declared return type with its parameters substituted from the arguments, and nullability by mode: under MIRROR nullable if and only if at least one argument (including every variadic one) is nullable, under DECLARED_OUTPUT and DISCRETE exactly as declared. The result does not depend on earlier resolutions, and resolving never changes the declaration or the argument types.",
 ["inputs", "histories"], "every declaration with concrete, parameterised and any-typed returns, every accepted argument list, any sequence of resolutions",
 "Tests resolve each standard function a few times; shared mutable type values leak nullability only across sequences of calls.",
 ["extensions/variants.go", "types/any_type.go", "types/parameterized_*.go"],
 [("EvaluateTypeExpression / ResolveType", "extensions/variants.go"), ("ReturnType", "types/*.go")])

prop("F03", "Arguments declared with the same type variable must agree",
 "Arguments declared with the same type variable (any1, decimal<P,S> parameters, nested in lists, maps, structs or functions, repeated variadically under CONSISTENT) are accepted only if they bind that variable to one and the same value, and distinct or unnumbered variables bind independently. Every use of the variable in the return type takes the bound value.",
 ["inputs"], "every signature with repeated type variables at any nesting depth, every consistent or inconsistent argument list",
 "Tests cover two or three argument signatures; disagreement hidden at a particular position or depth is what matters.",
 ["extensions/variants.go", "types/any_type.go", "types/parameterized_func_type.go"],
 [("ValidateConstrainedAnyTypeConsistency, HasSyncParams, variadic consistency", "extensions/variants.go"), ("unwrapAnyType", "types/any_type.go")])

prop("F04", "Type derivation programs compute what their formulas say",
 "Evaluating a return-type derivation (assignments, arithmetic, comparison and boolean operators, conditionals, min, max, abs) on given argument types yields the parameters that ordinary integer arithmetic gives for the formula, grouped by its parentheses and otherwise from left to right. A program that refers to something undefined, divides by zero, takes a boolean for an integer (or the other way round) or yields a parameter that does not fit in 32 bits gives an error, never a crash or a wrong type.",
 ["programs", "inputs"], "every derivation program of the grammar and every argument parameter values",
 "Tests evaluate the decimal formulas of the standard extensions on few inputs; operator semantics over generated programs is not sampled.",
 ["types/type_derivation.go", "types/parser/visitor.go", "types/integer_parameters/*.go"],
 [("OutputDerivation.ReturnType, expression Evaluate", "types/type_derivation.go")])

prop("X01", "Extension sets keep anchors and identifiers in one-to-one correspondence",
 "However functions, types and type variations are registered, looked up and loaded from plans in any order, each identifier keeps one anchor, each anchor denotes one identifier of its kind, and decoding what was encoded gives the identifier back; registering again is idempotent and never disturbs an earlier assignment. Serialising a set gives every declaration exactly once, in a deterministic order, with every referenced URN declared, and loading it again gives the same mapping.",
 ["histories", "inputs"], "every sequence of get-anchor, decode, find and load operations, including anchors that are sparse, large or zero",
 "Tests build small sets with consecutive anchors; collisions need particular histories (sparse anchors then new registrations, mixed declaration kinds).",
 ["extensions/extension_mgr.go", "extensions/extension_id.go"],
 [("set.GetFuncAnchor / GetTypeAnchor / GetTypeVariationAnchor", "extensions/extension_mgr.go"), ("GetExtensionSet, ToProto", "extensions/extension_mgr.go")])

prop("X02", "Loaded extension definitions are all findable and say what the file says",
 "Every function variant, type and type variation defined in a loaded extension file is found under its identifier (URN plus compound signature name built from the standard short type names, or the simple name when that is unambiguous) and carries exactly the arguments, options, variadic rule, nullability mode, return and intermediate types, determinism flags and metadata of the file. Nothing not defined is found, and aggregate functions are also usable as window functions.",
 ["inputs", "configurations"], "every well-formed extension file, loaded in any order with others, and all files shipped with the specification",
 "Tests load specific files and look up specific names; the mapping from files to lookups is total over all definitions.",
 ["extensions/extension_mgr.go", "extensions/simple_extension.go", "extensions/variants.go"],
 [("Collection.Load, GetScalarFunc/GetAggregateFunc/GetWindowFunc/GetType", "extensions/extension_mgr.go"), ("CompoundName, GetVariants", "extensions/simple_extension.go")])

prop("X03", "Loading a bad or duplicate extension file fails cleanly and changes nothing",
 "Loading a malformed extension file, a file with an invalid URN, or one whose URN is already loaded returns an error without crashing and leaves the collection exactly as it was, so that every earlier lookup still gives its earlier answer and the corrected file can still be loaded.",
 ["inputs", "fault_sequences"], "every mutation of a well-formed extension file at any place, and any sequence of failing and succeeding loads",
 "Tests load a few bad documents into an empty collection; partial effects depend on where in the document the fault is.",
 ["extensions/extension_mgr.go", "extensions/simple_extension.go", "extensions/validation.go"],
 [("Collection.Load", "extensions/extension_mgr.go"), ("custom YAML unmarshalling", "extensions/simple_extension.go"), ("URN validation", "extensions/validation.go")])

prop("P01", "Plans and relations survive conversion to and from protobuf",
 "A plan read from a valid protobuf message and written again, or built and then written, read and written again, gives the same message: no relation, expression, emit mapping, hint, advanced extension, name, version, binding, extension declaration or other supported setting is lost, reordered or invented. What is not supported is refused with an error instead of being dropped.",
 ["inputs", "programs"], "every plan over all supported relation kinds, with all optional fields present or absent",
 "Tests round-trip a fixed set of plans that set few optional fields; a dropped optional field shows only when it is set.",
 ["plan/plan.go", "plan/relations.go", "plan/common.go", "plan/subquery.go"],
 [("FromProto / ToProto of plan and relations", "plan/plan.go, plan/relations.go"), ("RelCommon", "plan/common.go")])

prop("P02", "Each relation reports the output schema the specification defines for it",
 "The record type a relation reports is the one its kind and inputs determine: reads give their base schema, filters, sorts, limits and sets keep their input's, projections append their expressions, joins of every kind combine, keep or make nullable the right sides, aggregates give groupings then measures, writes give what their output mode says. A field reference resolved against that schema and a consumer of it agree on every column's type.",
 ["inputs", "programs"], "every relation tree over every schema and join, set, write and aggregate kind",
 "Tests check a few schemas per relation; the outcome depends on kind, nullability and nesting of the inputs.",
 ["plan/relations.go", "types/types.go"],
 [("directOutputSchema / RecordType", "plan/relations.go")])

prop("P03", "Emit mappings select columns, compose, and never alter their source",
 "A relation with an emit mapping outputs exactly the mapped columns in mapped order, including repeats and the empty mapping; remapping a relation composes the mappings and is refused if any index is outside the current output. Remapping returns a new relation and leaves the one it was called on, and everything else that shares its inputs, unchanged.",
 ["inputs", "histories"], "every relation kind, every sequence of remaps with valid and invalid indices, through builders and through Remap",
 "Tests remap some relations once; composition and aliasing appear only after several remaps of shared inputs.",
 ["plan/common.go", "plan/relations.go", "plan/builders.go"],
 [("RelCommon.remap / Remap / RemapHelper", "plan/common.go"), ("*Remap builder methods", "plan/builders.go")])

prop("P04", "Rewriting a relation's inputs or expressions changes exactly those",
 "Copying a relation with new inputs or with rewritten expressions yields a relation equal to the original except for exactly the replaced parts, whichever of its expressions the rewrite touches, with all other settings (mapping, hint, join type, sort, offsets, names) kept. A rewrite that changes nothing yields an equivalent relation, an error from the rewriter is returned, and the original is never changed.",
 ["inputs", "programs"], "every relation kind, every subset of its expressions rewritten, every replacement input",
 "Tests rewrite one expression of some relations; early exits and forgotten fields are position-dependent.",
 ["plan/relations.go", "plan/plan.go"],
 [("Copy, CopyWithExpressionRewrite, GetInputs", "plan/relations.go")])

prop("P05", "The plan builder accepts exactly valid plans and what it builds is coherent",
 "The builder refuses what is not valid (mismatched set inputs, non-boolean filter and join conditions, virtual-table rows that do not fit each other or the names, negative or out-of-range references, offsets, limits or mappings, wrong number of output names, undeclared parameter bindings) and accepts what is, with an error and never a panic. A plan whose root names do not fit is refused when read, too. A plan it builds declares every extension it uses, has its root names matching the root schema depth-first, and describes the relations it was given.",
 ["inputs", "programs"], "every sequence of builder calls with valid and invalid arguments",
 "Tests cover one error per builder call; the boundary conditions and cross-call coherence are open-ended.",
 ["plan/builders.go", "plan/plan.go"],
 [("Builder interface methods", "plan/builders.go"), ("Plan, PlanWithBindings", "plan/builders.go, plan/plan.go")])

prop("P06", "Aggregation builders produce the grouping sets and measures asked for",
 "Grouping by sets, rollup, cube or plain keys yields exactly the grouping sets asked for (a rollup: every non-empty prefix of its keys; a cube: every non-empty subset; the grand total is left to an explicit empty set), in the order of the calls, each referring to the right key expressions with duplicates shared, and measures keep their order and filters. The built relation serialises to those sets, and turning it back into a builder and building again gives the same relation.",
 ["histories", "inputs"], "every sequence of grouping and measure additions in any order",
 "Tests build one rollup and one cube; shared or aliased index slices depend on the history of calls.",
 ["plan/builders.go", "plan/relations.go"],
 [("AggregateRelBuilder", "plan/builders.go"), ("AggregateRel ToProto", "plan/relations.go")])

prop("P07", "Messages with a needed part missing or out of bounds are refused when read",
 "A plan or extended expression message in which a part that is needed is missing is refused with an error when it is read, wherever in the tree that is: relations and expressions without a kind, inputs, conditions, sort keys, table kinds or projected expressions; casts, functions, literals, references, lambdas and subqueries without the type, value or operand they consist of. So is one which contradicts itself: join types that are unset or unknown, set and write operations that are unset, set inputs with different columns, join keys in different numbers, names that do not fit the schema, mappings, references and grouping references beyond what is there, virtual tables in two forms at once, decimals of another size than 16 bytes, and functions that are not declared.",
 ["inputs", "programs"], "every message, broken in any one place",
 "Tests break a message's outermost relation in a handful of ways; what is checked depends on the kind and the position of the part.",
 ["plan/plan.go", "plan/relations.go", "plan/common.go", "plan/subquery.go", "expr/expression.go", "expr/functions.go", "expr/field_reference.go", "expr/literals.go"],
 [("FromProto functions", "plan, expr"), ("Validate", "types/types.go")])

prop("R01", "Malformed plans, expressions, types and literals are refused without crashing",
 "Reading any protobuf message of the Substrait schema, however incomplete or contradictory (missing sub-messages, unset choices, out-of-range enums, anchors or field numbers), ends in an error or a usable result and never in a panic or non-termination. A result that is returned without an error can be asked for its schema, type, text and protobuf form without a panic.",
 ["inputs", "fault_sequences"], "every structurally mutated or randomly generated message",
 "Tests feed a few malformed messages; the set of incomplete messages is the product of all optional fields.",
 ["plan/plan.go", "plan/relations.go", "plan/common.go", "expr/expression.go", "expr/functions.go", "expr/field_reference.go", "expr/literals.go", "types/types.go"],
 [("FromProto functions", "plan, expr, types"), ("nil and range checks", "plan/common.go, expr/field_reference.go")])

prop("D01", "Dialects map functions to local names and back without mixing them up",
 "Given a dialect, the local registry lists exactly the dialect's supported variants; looking one up by identifier gives its local name, notation and options, and looking up by local name (and argument count) gives back exactly the variants so named, with scalar, aggregate and window kept apart. The outcome does not depend on ordering or on names that coincide across functions, and a dialect naming unknown functions, types or variants, or localizing one variant in two different ways, is refused with an error.",
 ["configurations", "inputs"], "every dialect over every subset of functions, with renamed, swapped and shared local names",
 "Tests load two fixed dialect files; clashing local names and map ordering need generated dialects.",
 ["functions/dialect.go", "functions/registries.go", "functions/local_functions.go", "functions/functions.go"],
 [("LoadDialect, LocalizeFunctionRegistry", "functions/dialect.go"), ("function registries", "functions/registries.go")])

prop("D02", "Local type names translate to Substrait types and back faithfully",
 "For every type a dialect supports, translating the type to its local name and back gives the same type including its parameters (local names do not state nullability: reading one back gives the required type, while the Substrait spelling of a type keeps its nullability), unsupported types and malformed names are refused with an error, types unsupported as columns are reported as such, a local name that several types share means the same type on every load, and no translation influences a later one. Translations follow the dialect's own name mapping and nothing else.",
 ["configurations", "histories"], "every dialect type map, every sequence of translations both ways",
 "Tests translate a handful of names once; parameters combined with nullability and repeated translations are not covered.",
 ["functions/types.go", "functions/dialect.go"],
 [("typeRegistry, localTypeRegistry", "functions/types.go")])

prop("S01", "Function test-case files parse to the cases they state and print back losslessly",
 "Parsing a well-formed function test-case file yields every test in order with its function, typed arguments and columns, options, expected result or error and group description exactly as written, and printing the parsed cases and parsing again gives equal cases (the text of an aggregate case leaves out the table's name and the types of columns no argument refers to). Malformed text, and values that do not fit their declared type, are refused with an error that is returned, never a crash or a silently changed value; only fractions of seconds finer than the declared precision are cut. A case's function call names the function of the included extension whose parameters accept its arguments, with those arguments (columns as references by position), options and return type, and is refused when there is no such function. Lambdas, interval_compound and user-defined types are not read; only the first included file is kept.",
 ["inputs"], "every file generated from the test-case grammar and mutations of such files; all files shipped with the specification",
 "Tests parse fixed snippets and the shipped corpus; literal kinds, argument kinds and aggregate syntaxes combine freely.",
 ["testcases/parser/parse.go", "testcases/parser/visitor.go", "testcases/parser/nodes.go"],
 [("ParseTestCaseFile(s)", "testcases/parser/parse.go"), ("TestCaseVisitor", "testcases/parser/visitor.go"), ("String methods", "testcases/parser/nodes.go")])

prop("C01", "Shared registries answer alike under concurrent and sequential use",
 "Once loaded, collections, function and type registries, dialect-localised registries, plans, expressions and types may be read from several goroutines at once without data races, and every answer equals the one a single goroutine gets. Answers do not depend on what was asked before.",
 ["schedules", "histories"], "every mix of read operations issued concurrently or in any order",
 "Tests are sequential and use fresh objects; lazily built caches and shared mutable values show up only across goroutines or call orders.",
 ["functions/dialect.go", "functions/types.go", "extensions/extension_mgr.go", "types/types.go", "plan/plan.go"],
 [("lazy registry construction", "functions/dialect.go"), ("default collection", "extensions/extension_mgr.go"), ("shared type values", "types/types.go, functions/types.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
