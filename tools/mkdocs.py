#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "bounded symbolic execution of the parser's LLVM IR, every branch and assertion decided by Z3, counterexamples replayed natively"
P = []
def prop(id, title, statement, quant, tests, files, mech, over=("inputs",), note=None):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=list(over), text=quant), why_tests_cant=tests,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note))

Q = "src/query/"
prop("Q01", "Query statements are read to their end and give the tree they denote",
     "Every well-formed SPARQL 1.1 query statement - prologue, one of SELECT, CONSTRUCT, DESCRIBE or ASK with its dataset clauses, pattern and modifiers, trailing VALUES - is accepted, consumed to its end, and yields exactly the syntax tree the grammar gives it: every declaration, clause and flag, in order, nothing lost or added. The parsers of the single query forms agree with the statement parser on their part.",
     "all derivations of the query grammar with up to 2 (thorough: 3) productions that are not the simplest alternative, every identifier and literal symbolic, three styles of whitespace and keyword case; lists of up to 7",
     "The tests parse a few dozen fixed texts; they cannot reach the combinations of clauses, forms and spellings.",
     ["src/parser.rs", Q + "mod.rs", Q + "select.rs", Q + "ask.rs", Q + "construct.rs", Q + "describe.rs", "src/terminals.rs", "src/data.rs", "src/clauses.rs"],
     [("statement parser", "src/parser.rs sparql_query_stmt, sparql_query"), ("prologue", "src/terminals.rs prologue, base_decl, prefix_decl"), ("datasets", "src/data.rs data_set_clause"), ("query forms", Q + "select.rs select_query, ask_query, construct_query, describe_query")])
prop("Q02", "SELECT and DESCRIBE projections are kept in order with their modifiers",
     "The projection of a SELECT (star, variables, and parenthesised expressions with their names, with or without DISTINCT or REDUCED) and the resources of a DESCRIBE appear in the tree exactly as written, in order, and the clause ends where the dataset or pattern begins.",
     "projections with up to 3 (thorough: 4) non-simplest productions, lists of up to 9 projections and 8 resources, all names symbolic",
     "Only single short projections are tested.",
     [Q + "select.rs", Q + "describe.rs", "src/var.rs", "src/expression/mod.rs"],
     [("select clause", Q + "select.rs select_clause, select_vars"), ("describe", Q + "describe.rs describe_query"), ("projection", "src/var.rs var_or_expression_as_var")])
prop("Q03", "Solution modifiers are read completely and independently of each other",
     "GROUP BY, HAVING, ORDER BY and LIMIT/OFFSET are accepted in their grammatical order for every query form, each optional; every condition keeps its order, its direction and its name; LIMIT and OFFSET keep their numbers and which one came first.",
     "all combinations of modifiers with up to 3 (thorough: 4) non-simplest productions, up to 8 conditions, up to 4 symbolic digits per number, 4 query forms",
     "The tests check single modifiers with fixed numbers.",
     ["src/clauses.rs", "src/group.rs", "src/order.rs"],
     [("modifiers", "src/clauses.rs solution_modifier"), ("group", "src/group.rs group_clause"), ("order", "src/order.rs order, order_condition"), ("limits", "src/clauses.rs limit_offset_clause")])
prop("Q04", "VALUES blocks keep their variables, rows and values in order",
     "An inline data block, inside a pattern or after the query, is accepted for one variable and for a list of variables, including empty lists and rows; each row holds the values written, in order, with UNDEF distinguished from every term.",
     "blocks with up to 3 (thorough: 4) non-simplest productions; up to 8 variables, rows or values",
     "One or two fixed blocks are tested.",
     ["src/data.rs", "src/clauses.rs"],
     [("data block", "src/data.rs datablock, inline_data_one_var, inline_data_full"), ("value", "src/data.rs datablock_value")])
prop("G01", "Group graph patterns keep every element, nested as written",
     "The elements of a group graph pattern - triples, nested groups, UNION, OPTIONAL, MINUS, GRAPH, SERVICE [SILENT], FILTER, BIND, VALUES - appear in the tree in their order and nesting, whether or not dots separate them; alternatives of a UNION are never merged or dropped.",
     "groups with up to 3 (thorough: 4) non-simplest productions, up to 6 elements or branches, up to 6 levels of nesting",
     "Tests cover one element at a time.",
     ["src/graph.rs"],
     [("group", "src/graph.rs group_graph_pattern, group_graph_pattern_sub"), ("elements", "src/graph.rs graph_pattern_not_triples, group_or_union_graph_pattern, optional_group_graph_pattern, minus_graph_pattern, graph_graph_pattern, service_graph_pattern")])
prop("G02", "Triples blocks keep every subject, predicate and object",
     "A block of triples with `;` and `,` abbreviations and optional trailing separators yields exactly the subjects, verbs and objects written, grouped as written, for every kind of term in every position where the grammar allows it.",
     "blocks with up to 3 (thorough: 4) non-simplest productions, every pair of term kinds, lists of up to 8 triples, predicates or objects",
     "Tests use a few fixed triples.",
     ["src/triple.rs", "src/graph.rs", "src/node.rs", "src/path.rs"],
     [("triples", "src/triple.rs triples_block, triples_template"), ("property lists", "src/path.rs property_list_path_not_empty, src/triple.rs property_list, object_list"), ("terms", "src/graph.rs graph_term")])
prop("G03", "Collections and blank node property lists nest as written",
     "Collections `( ... )` and blank node property lists `[ ... ]` are accepted as subjects and objects, inside patterns and templates, and their tree holds the same nodes in the same order and nesting; the empty forms `()` and `[]` are the nil and anonymous terms.",
     "nodes with up to 2 (thorough: 3) non-simplest productions, up to 8 members, up to 5 levels",
     "Nesting is not tested beyond one level.",
     ["src/node.rs", "src/triple.rs", "src/graph.rs"],
     [("collection", "src/triple.rs collection, src/path.rs triples_node_path"), ("blank node property list", "src/triple.rs blank_node_property_list, src/path.rs blank_node_property_list_path"), ("graph node", "src/graph.rs graph_node, src/path.rs graph_node_path")])
prop("G04", "Property paths group by precedence",
     "In a property path `|` binds weaker than `/`, which binds weaker than `^`, which binds weaker than the postfix `?`, `*` and `+`; parentheses override it, negated property sets keep their members and inversions, and a path is not confused with what follows it.",
     "paths with up to 3 (thorough: 5) non-simplest productions, every sequence of up to 4 elements with all operators, lists of up to 8",
     "A handful of fixed paths are tested.",
     ["src/path.rs"],
     [("alternatives and sequences", "src/path.rs path_alternative, path_sequence"), ("elements", "src/path.rs path_elt_or_inverse, path_elt, path_primary, path_mod"), ("negated sets", "src/path.rs path_negated_property_set, path_one_in_property_set")])
prop("G05", "CONSTRUCT templates and subqueries are kept apart from patterns",
     "Both forms of CONSTRUCT (template with pattern, and the short form whose template is the pattern) and subqueries inside a group are accepted and give the tree with their own template, datasets, pattern, modifiers and VALUES, none of which leaks into the surrounding query.",
     "CONSTRUCT queries with up to 3 (thorough: 4) and subqueries with up to 2 non-simplest productions",
     "One example each is tested.",
     [Q + "construct.rs", Q + "select.rs", "src/graph.rs"],
     [("construct", Q + "construct.rs construct_query, construct_template, sub_construct, sub_triples"), ("subquery", Q + "select.rs sub_select")])
prop("E01", "Expressions group by operator precedence",
     "In an expression `||` binds weaker than `&&`, which binds weaker than the comparisons, which do not chain, then `+ -`, then `* /`, then the unary `! + -`; the tree of every expression shows exactly this grouping with all operands and operators in order, wherever expressions may occur.",
     "expressions with up to 2 (thorough: 3) non-simplest productions in 6 contexts, every sequence of up to 3 (thorough: 4) of the 12 binary operators, chains of up to 7 operands",
     "A few operator pairs are tested.",
     ["src/arithmetic.rs", "src/expression/mod.rs"],
     [("logical", "src/expression/mod.rs expression, src/arithmetic.rs conditional_and_expression"), ("relational", "src/arithmetic.rs relational_expression"), ("arithmetic", "src/arithmetic.rs additive_expression, multiplicative_expression, op_expression, unary_expression")])
prop("E02", "Every built-in function is recognised with exactly its arguments",
     "Each of the SPARQL 1.1 built-in functions is recognised by its own name with the number of arguments the grammar gives it, yields a tree that names that function and holds its arguments in order, and is rejected with any other number of arguments.",
     "all 52 functions in 6 contexts with 1 further production (thorough: 2), every arity up to 5, argument lists of up to 8",
     "The tests touch a small part of the function table.",
     ["src/expression/functions.rs", "src/call.rs"],
     [("built-in call", "src/call.rs built_in_call, built_in_call_1, built_in_call_2, src/expression/functions.rs substring_expression, str_replace_expression, regex_expression"), ("argument lists", "src/expression/mod.rs expression_list")])
prop("E03", "Aggregates keep their DISTINCT flag, operand and separator",
     "COUNT, SUM, MIN, MAX, AVG, SAMPLE and GROUP_CONCAT are recognised wherever expressions may contain them; the tree has the right aggregate, its DISTINCT flag, its operand (or star for COUNT) and the separator of GROUP_CONCAT as written.",
     "aggregates with 2 (thorough: 4) non-simplest productions in 4 contexts",
     "Each aggregate has at most one test.",
     ["src/aggregate.rs"],
     [("aggregate", "src/aggregate.rs aggregate, count, count_target, group_concat")])
prop("E04", "Calls, IN lists, EXISTS and constraints keep their operands",
     "Calls of functions named by an IRI (with DISTINCT or an empty argument list), IN and NOT IN lists, EXISTS and NOT EXISTS patterns, and the constraints of FILTER, HAVING and ORDER BY are accepted and give exactly the operands written, negations included.",
     "2 (thorough: 3) non-simplest productions in up to 7 contexts, lists of up to 8",
     "Fixed examples only.",
     ["src/call.rs", "src/expression/mod.rs", "src/expression/functions.rs", "src/arithmetic.rs"],
     [("function call", "src/call.rs function_call, arg_list"), ("IN", "src/arithmetic.rs relational_expression"), ("EXISTS", "src/call.rs built_in_call_2"), ("constraint", "src/expression/functions.rs constraint, filter")])
prop("U01", "Graph management updates keep their operation, flags and graphs",
     "LOAD, CLEAR, DROP, CREATE, ADD, MOVE and COPY, alone or in a request of operations separated by `;` with prologues, are accepted and give their own operation, the SILENT flag, and source and target graph in the right roles.",
     "all seven operations with up to 3 non-simplest productions, requests with up to 2 (thorough: 3), up to 6 operations",
     "The update grammar is private and hardly tested.",
     ["src/update.rs", "src/operations.rs", "src/graph.rs"],
     [("requests", "src/update.rs update, update_stmt"), ("operations", "src/operations.rs load_stmt, clear_stmt, drop_stmt, create_stmt, add_stmt, move_stmt, copy_stmt, silent_from_to")])
prop("U02", "Data and pattern updates keep their quads and clauses",
     "INSERT DATA, DELETE DATA, DELETE WHERE and the DELETE/INSERT ... WHERE operation with WITH and USING are accepted and give exactly the triples and named graphs written in each clause, never exchanging what is deleted with what is inserted.",
     "the four operations with up to 2 (thorough: 4) non-simplest productions, up to 8 graphs or USING clauses",
     "Hardly tested.",
     ["src/update.rs", "src/operations.rs", "src/quads.rs", "src/clauses.rs"],
     [("modify", "src/operations.rs modify_stmt, delete_insert, insert_data, delete_data, delete_where_data"), ("quads", "src/quads.rs quads, quad_data, quads_pattern, quads_not_triples")])
prop("L01", "IRI references hold exactly the characters between their brackets",
     "An IRI reference is accepted if and only if the characters between `<` and `>` are those the IRIREF token allows, ends at the first `>`, and its text is returned verbatim, wherever an IRI may stand.",
     "all contents of up to 2 characters at 12 places and up to 3 (thorough: 4) at one, any Unicode characters; contents of up to 70 characters with an arbitrary character at every position",
     "Unicode, forbidden characters and long IRIs are not tested.",
     ["src/terminals.rs", "src/expression/iri.rs"],
     [("IRIREF", "src/terminals.rs iri_ref"), ("iri", "src/terminals.rs iri, src/expression/iri.rs iri_or_a")])
prop("L02", "Variable names are read to the longest extent the token allows",
     "A variable is the sigil `?` or `$`, which the tree distinguishes, followed by the longest sequence of characters VARNAME allows; it is rejected without one, and the name is returned verbatim wherever a variable may stand.",
     "all texts of up to 3 (thorough: 4) arbitrary Unicode characters after the sigil, names of up to 70 characters with an arbitrary character at every position, 13 places",
     "Names in the tests are ASCII words.",
     ["src/var.rs", "src/terminals.rs"],
     [("var", "src/var.rs var, var_name"), ("character classes", "src/terminals.rs is_pn_chars_u, is_name_extender")])
prop("L03", "Prefixed names and blank node labels follow their token grammar",
     "Prefixes, local names (with escapes, percent encodings and inner dots) and blank node labels are read to the longest extent their token allows and returned verbatim; what the token does not allow is not part of the name, and declarations use the same rules.",
     "local names of up to 3 (thorough: 4), prefixes and labels of up to 2 (thorough: 3) arbitrary Unicode characters; long names with an arbitrary character at every position; every place of an IRI",
     "Only ASCII names without escapes are tested.",
     ["src/terminals.rs", "src/graph.rs"],
     [("pn_local", "src/terminals.rs pn_local"), ("pn_prefix", "src/terminals.rs pn_prefix, pname_ns"), ("blank nodes", "src/graph.rs blank_node"), ("prefix declaration", "src/terminals.rs prefix_decl")])
prop("L04", "String literals end at their own quote and keep their text and tag",
     "A string literal ends at the first unescaped quote of its own kind; its text is returned as written, escapes are limited to the ones the grammar has, and its language tag or datatype is kept with it; malformed escapes and tags are rejected.",
     "contents of up to 3 (thorough: 4) arbitrary Unicode characters in both quotes, contents of up to 70 characters with an arbitrary one at every position, language tags of up to 3 (thorough: 5) arbitrary characters",
     "Contents in the tests are plain words.",
     ["src/terminals.rs", "src/literal.rs"],
     [("string literal", "src/terminals.rs string_literal, string_content, echar"), ("language tag", "src/terminals.rs language_tag"), ("rdf literal", "src/terminals.rs rdf_literal")])
prop("L05", "Numbers and booleans have the value that is written",
     "Integers, decimals and doubles have exactly the value written, with sign and exponent, over the whole range the tree can hold and for any number of leading zeros; LIMIT and OFFSET hold every 64 bit unsigned number and reject larger ones; booleans are not mixed up with names.",
     "integers of up to 5 (thorough: 11) symbolic digits and all numbers within 100 of the limits of 16, 32, 53 and 64 bits; 8 shapes of decimals with every digit, 5 exponents; exponents of up to 3 symbolic digits",
     "Some fixed numbers are tested.",
     ["src/literal.rs", "src/clauses.rs", "src/terminals.rs"],
     [("numeric literal", "src/literal.rs numeric_literal, sparql_int, sparql_decimal, sparql_double, exponent"), ("limits", "src/clauses.rs limit_clause, offset_clause")])
prop("L06", "Keywords match in any case and only as whole words",
     "Every keyword, function name and operator word is recognised in every mixture of upper and lower case, and only as a whole word: a keyword directly followed by a character that continues a name is not that keyword.",
     "every keyword of the grammar with every letter in either case; every keyword followed by an arbitrary name character of up to 3 bytes; 1 further production (thorough: 2)",
     "Tests use one spelling per keyword.",
     ["src/terminals.rs", "src/literal.rs", "src/call.rs"],
     [("keywords", "src/terminals.rs tag_no_case, is_name_extender"), ("verb a", "src/terminals.rs verb_a")])
prop("L07", "Whitespace and comments may stand between any tokens and change nothing",
     "Between any two tokens of a statement any sequence of whitespace characters and comments may stand, and none is needed where the tokens delimit themselves; the tree does not depend on it; inside a token it is not allowed.",
     "an arbitrary gap (whitespace characters, a comment with arbitrary content and either line end, or nothing) at every place of texts with 1 (thorough: 2) non-simplest productions; all gaps empty or long at once; gaps of up to 300 characters",
     "The tests use single spaces almost everywhere.",
     ["src/terminals.rs"],
     [("whitespace", "src/terminals.rs sp, sp1, is_sp"), ("lists", "src/terminals.rs sp_list0, sp_list1, sp_sep, sp_sep1, sp_enc")])
prop("S01", "The parser returns on every text, without panic and without asking for more",
     "On every text every parser returns a result or an error: it never panics, never overflows, never loops, and never answers that more input is needed.",
     "all texts with an arbitrary Unicode character, or two arbitrary ASCII characters (thorough: three), at 85 places of queries and 29 of updates; all texts of up to 3 characters for 8 entry points",
     "Tests have hardly any malformed text.",
     ["src/parser.rs", "src/terminals.rs", "src/literal.rs"],
     [("all parsers", "src/*.rs"), ("slicing", "src/terminals.rs")])
prop("S02", "What is consumed is a prefix of the input and decides the result alone",
     "The remainder of a successful parse and the position in every error are suffixes of the input; what was consumed parses to the same tree on its own, and the same text always gives the same result.",
     "all texts with an arbitrary Unicode character or two ASCII characters at 85 places; up to two arbitrary characters after 10 statements; statements with 1 production parsed twice",
     "Remainders are only checked for emptiness.",
     ["src/parser.rs", "src/terminals.rs"],
     [("statement parser", "src/parser.rs"), ("lookahead", "src/terminals.rs")])
prop("M01", "Texts with unbalanced or missing brackets are not accepted",
     "A text that ends inside of brackets, or in which one bracket of a well-formed statement is missing, replaced by another kind or added, is never accepted as a complete statement.",
     "statements, expressions, patterns, triples, paths, modifiers, data blocks and updates with 1 (thorough: 2) non-simplest productions: cut at every byte inside of brackets, every bracket replaced by every other, every bracket added between any two tokens",
     "There are almost no negative tests.",
     ["src/terminals.rs", "src/graph.rs", "src/expression/mod.rs"],
     [("brackets", "src/terminals.rs bracketted, sp_enc"), ("groups", "src/graph.rs group_graph_pattern")])
prop("S03", "Deep nesting costs time in proportion to the length of the text",
     "Groups, parentheses, collections, paths, calls and updates nested to any depth the stack allows are parsed in time that grows with the length of the text and not exponentially with the depth; a mistake in the depth is reported just as soon, and the depth does not change the result.",
     "49 constructs of queries and 10 of updates nested 40 (thorough: 80) levels deep, well formed, with an arbitrary character in the innermost place, or broken off there: at most 30 million executed instructions of the compiled parser each",
     "Tests nest two levels at most.",
     ["src/expression/mod.rs", "src/graph.rs", "src/path.rs", "src/arithmetic.rs", "src/triple.rs"],
     [("alternatives with common prefixes", "src/expression/mod.rs, src/arithmetic.rs, src/graph.rs, src/path.rs, src/node.rs")])
prop("M02", "Every character of a statement counts: exactly the language is accepted",
     "A text is accepted as a complete query or update if and only if the SPARQL 1.1 grammar derives it, with the tree that an independent recogniser of the grammar gives it; a changed character either leaves the language, and the text is rejected, or gives the changed tree.",
     "an arbitrary Unicode character, or two arbitrary ASCII characters (thorough: three, one of any length), at 85 places of queries and 29 of updates",
     "No test feeds near misses of the language.",
     ["src/parser.rs", "src/terminals.rs", "src/update.rs"],
     [("statement parser", "src/parser.rs sparql_query_stmt"), ("tokens", "src/terminals.rs"), ("updates", "src/update.rs update")])
for i, title, what, texts, files, mech in (
    ("M03", "Misspelled query statements are rejected or read as what they say", "query statement", "statements of the 4 forms",
     ["src/parser.rs", Q + "select.rs", Q + "ask.rs", Q + "construct.rs", Q + "describe.rs", "src/clauses.rs"],
     [("statements", Q + "*.rs, src/parser.rs")]),
    ("M04", "Misspelled patterns and triples are rejected or read as what they say", "graph pattern or block of triples", "the 8 kinds of pattern elements and triples blocks",
     ["src/graph.rs", "src/triple.rs", "src/node.rs"],
     [("patterns", "src/graph.rs group_graph_pattern"), ("triples", "src/triple.rs triples_block, triples_template"), ("property lists", "src/triple.rs property_list")]),
    ("M05", "Misspelled expressions and paths are rejected or read as what they say", "expression, aggregate or property path", "expressions, aggregates and paths",
     ["src/expression/mod.rs", "src/arithmetic.rs", "src/aggregate.rs", "src/call.rs", "src/path.rs"],
     [("expressions", "src/expression/mod.rs expression, src/arithmetic.rs"), ("aggregates", "src/aggregate.rs aggregate"), ("paths", "src/path.rs path")]),
    ("M06", "Misspelled updates are rejected or read as what they say", "update request", "the 11 update operations",
     ["src/update.rs", "src/operations.rs", "src/quads.rs"],
     [("operations", "src/operations.rs"), ("requests", "src/update.rs update"), ("quads", "src/quads.rs")]),
    ("M07", "Misspelled modifiers and data blocks are rejected or read as what they say", "solution modifier or data block", "the 4 modifiers and data blocks",
     ["src/clauses.rs", "src/group.rs", "src/order.rs", "src/data.rs"],
     [("modifiers", "src/clauses.rs solution_modifier"), ("data blocks", "src/data.rs datablock")])):
    prop(i, title,
         "When one token of a well-formed %s is dropped, replaced, repeated, exchanged with its neighbour, joined to it or followed by one too many, or when one of its characters is changed, added or left out, the text is accepted if and only if the SPARQL 1.1 grammar derives it, and then with the tree of the changed text." % what,
         "%s with 1 (thorough: 2) non-simplest productions; every token of them, replaced by or preceded by each of 62 other tokens, repeated, exchanged or joined with the next; an arbitrary ASCII character in the place of or in front of every character, and every character left out" % texts,
         "There are almost no negative tests.", files, mech)
prop("A01", "Values of the tree compare, copy and convert faithfully",
     "Two trees are equal if and only if they denote the same syntax; a copy equals its original and outlives it; text forms of signs and path modifiers convert both ways; string arguments are compatible exactly as SPARQL defines it; constructors store what they are given, and no operation on a value panics.",
     "two independent statements or expressions with 1 non-simplest production each; copies of statements with 2; all texts of up to 3 ASCII characters for conversions; all 64 bit numbers; tags of up to 3 letters",
     "None of these is tested.",
     ["src/literal.rs", "src/arithmetic.rs", "src/path.rs", "src/aggregate.rs", "src/clauses.rs", "src/node.rs", "src/expression/mod.rs", "src/query/mod.rs"],
     [("compatibility", "src/literal.rs compatible_arg"), ("conversions", "src/arithmetic.rs Sign, src/path.rs PathMod"), ("constructors", "src/clauses.rs LimitOffsetClause, src/node.rs RdfLiteral, src/expression/mod.rs Iri")],
     note="One known finding: writing a parsed query as text panics (unimplemented).")

NOTE = ("Holds for every value of the symbolic bytes and choices inside the bounds listed in the evidence file (coverage.scenarios); nothing is claimed outside them. "
        "Decided on the optimised LLVM IR (overflow checks on) of the working tree compiled together with the harness. Trusted: rustc, the IR executor (cross-checked by native replay of models), Z3, and the harness's reading of the SPARQL 1.1 grammar; allocation does not fail. If the time budget ends first, the evidence says so (exhaustive: false).")
man = dict(version=1, setup_cmd="./check.sh --setup",
           hooks=dict(guard="nom_sparql_verif", enable="RUSTFLAGS='--cfg nom_sparql_verif' (check.sh sets it)",
                      source_commits=["1415ae4"]),
           checks=[], not_applicable=[])
full = subprocess.run(["git", "-C", "/repo", "rev-parse", "1415ae4"], capture_output=True, text=True).stdout.strip()
if len(full) == 40:
    man["hooks"]["source_commits"] = [full]
MORE = "; lists of 17, 64 and 300 more elements; one leaf at a time of up to 4 characters of any length, empty or spelled like a keyword"
for p, _ in P:
    if p["id"][0] in "QGEU":
        p["quantifier"]["text"] += MORE
    if p["id"] in ("G01", "G03", "E01"):
        p["quantifier"]["text"] += "; 20 levels of nesting"
with open(V + "/properties.jsonl", "w") as f:
    for p, note in P:
        f.write(json.dumps(p) + "\n")
        man["checks"].append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                                  technique=T, level="model_checking", level_note=NOTE + (" " + note if note else "")))
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
for p, _ in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
