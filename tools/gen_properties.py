#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Placeholders and returned args correspond one to one, in order",
  "Whenever building a fragment, property or query builder succeeds, the placeholders in the returned text are exactly the committed args: every arg committed during the build has its placeholder in the text, once and at the position given by commit order, and nothing that was dropped from the text leaves an arg behind. With the question style the n-th '?' therefore belongs to the n-th returned arg, in nested fragments, joins, CTEs, select lists, joins of tables, ORDER BY and unions alike.",
  ["inputs", "programs"], "all trees of fragments and query builders, all templates, all numbers of elements in every list",
  "The tests build about twenty fixed trees, nearly all with the dollar style, where order mistakes are invisible; the property speaks about every composition.",
  ["build.go", "func_builtin.go", "context_args.go", "context.go", "properties.go", "sqlb/query_builder_build.go", "sqlb/query_builder_order.go"],
  [("text assembled in build order", "build.go buildClause, sqlb buildInternal"), ("rollback of the iteration #join drops", "func_builtin.go funcJoin"), ("args append only", "context_args.go CommitArg")],
  [("argStore", "args committed so far", "context_args.go")], ["BuildQuery", "BuildFragment", "Context.Args"])

p("C02", "Dollar placeholders number the args and merge exactly the equal ones",
  "With the dollar style, committing an arg returns $N where the N-th arg of the context (1-based) equals that arg: an arg equal to an earlier one reuses its number and is not stored again, any other gets the next number and is appended, unchanged, at that position. Args of any type are accepted, including types that cannot be compared, and dropping args again never leaves numbers behind that refer to dropped args. With the question style each committed arg is appended, unchanged and unmerged, and the placeholder is '?'.",
  ["inputs", "histories"], "all sequences of committed (and dropped) args of all types",
  "Tests commit small ints and bools; they never commit uncomparable values, or merge after a rollback.",
  ["context_args.go"],
  [("numbering and merging", "context_args.go dollarArgStore.CommitArg"), ("Truncate removes the numbers of dropped args", "context_args.go dollarArgStore.Truncate")],
  [("dict", "number of each arg that can be merged", "context_args.go")], ["Context.CommitArg", "Context.Args"])

p("C03", "Every arg and fragment given to a fragment is used, or the build fails",
  "If a fragment builds successfully, each of its args and each of its fragments was actually referenced and its text was kept; an arg or fragment that no reference reached makes the build fail with an error. References from a dropped #join iteration do not count.",
  ["inputs", "programs"], "all fragments, with any number of args and fragments and any template",
  "No test has an unused arg or fragment, the check could vanish for one of the two lists, or for some elements, unnoticed.",
  ["build.go", "context_fragment.go", "properties.go", "property.go", "context.go"],
  [("usage check after the build", "build.go Fragment.BuildFragment"), ("all elements checked", "properties.go checkUsage"), ("usage marked only by building", "property.go")],
  [("used", "the property was built", "property.go")], ["Fragment.BuildFragment error"])

p("C04", "Bindvar references resolve to the arg they name; styles cannot be mixed",
  "In a template, the n-th '?' refers to the n-th arg and '$N' to the N-th arg of the fragment the template belongs to. A template that uses both styles fails to parse, whichever comes first and whatever is between them.",
  ["inputs"], "all templates",
  "The one test of '$1,?' passes whether or not an error is returned (and hid a defect); positions and interleavings are unbounded.",
  ["syntax/parser.go", "build.go"],
  [("style and counter", "syntax/parser.go bindVarExpr"), ("lookup", "build.go buildClause")],
  [("bindVarStyle, bindVarIndex", "style in use and number of bindvars seen", "syntax/parser.go")], ["syntax.Parse", "BuildFragment"])

p("C05", "References are 1-based and out of range references are errors",
  "A reference to arg or fragment i builds exactly the i-th element (1-based) of the fragment the template belongs to, and never one of an enclosing or sibling fragment. Any index below 1 or beyond the number of elements is an error, which is recognisable as ErrInvalidIndex for indexed functions; it never panics and never yields another element.",
  ["inputs"], "all indexes and all list lengths, all nestings of fragments",
  "Tests contain in-range references only.",
  ["build.go", "properties.go", "context_fragment.go", "func_builtin.go"],
  [("bounds check", "properties.go Properties.Build, build.go buildClause"), ("innermost fragment wins", "contex_with.go contextValue")],
  [], ["BuildFragment", "Properties.Build"])

p("C06", "Errors are never swallowed while building",
  "If anything that a build consists of fails (parsing, a nested fragment, a property, an arg, a custom function, a CTE, a joined table, a union) the build fails with an error that wraps the cause when the cause is a Go error of a nested build or call. The only exception is #join, where an iterated function reporting ErrInvalidIndex for the index it was given, beyond what was explicitly requested, ends the list; the same error from inside of what is joined, or from another reference in the template, is still reported.",
  ["inputs", "programs", "fault_sequences"], "all error returns at all call sites on all paths",
  "Tests never make a nested builder or function fail; each call site has its own error path.",
  ["build.go", "func_exec.go", "func_builtin.go", "errors.go", "properties.go", "sqlb/query_builder_build.go", "sqlb/query_builder_dependecy.go"],
  [("error propagation", "all call sites of BuildFragment, Parse, evalFunction"), ("nested invalid indexes are not the end of #join", "errors.go isInvalidIndex")],
  [], ["BuildQuery error", "errors.Is"])

p("C07", "A failed build returns nothing but the error",
  "Whenever building, evaluating or interpolating returns a non-nil error, the returned query is the empty string, the returned args are nil and the returned rows are nil, so that a partial query can never be executed by mistake.",
  ["inputs", "fault_sequences"], "all error paths of all functions returning a query and an error",
  "Tests hardly have failing builds and do not look at the other results.",
  ["build.go", "func_exec.go", "func_builtin.go", "properties.go", "sqlb/query_builder_build.go", "util/scan.go", "util/interpolate.go"],
  [("error returns", "every return statement with an error")], [], ["BuildQuery", "BuildFragment", "util.Interpolate", "util.Scan"])

p("C08", "Building does not modify what is built",
  "Building a fragment, column, table or query builder changes nothing but the context it is built with: it never writes to the fragment, to the builder, to the slices, maps and args they hold, or to package level variables. Hence the same object can be built repeatedly, with different styles, or concurrently with separate contexts, and yields the same result each time.",
  ["histories", "schedules", "programs"], "all build histories and all schedules of concurrent builds of a shared object",
  "Tests build nearly everything once; races and second builds need every path.",
  ["build.go", "context_fragment.go", "sqlb/query_builder_build.go", "sqlb/query_builder_order.go", "sqlb/query_builder_dependecy.go", "sqlb/table_column.go"],
  [("usage state lives in the context", "context_fragment.go newFragmentContext"), ("local copies", "sqlb buildSelects, orderFragments")], [], ["repeated BuildQuery"])

p("C09", "Contexts are isolated; functions are scoped to their context",
  "Functions added to a context are visible to it and to contexts derived from it only, where they take precedence over functions of the same name further up; the parent, its other children and other contexts are unaffected. Contexts created separately share no state: neither args, nor functions, nor package level variables are written after initialisation. All contexts derived from one context share its args.",
  ["histories", "schedules"], "all trees of derived contexts and all interleavings of builds with separate contexts",
  "Tests derive a single child context and never look at the parent or siblings afterwards.",
  ["context.go", "contex_with.go", "context_func.go", "context_args.go", "func.go"],
  [("lookup from the innermost context outwards", "contex_with.go contextValue"), ("fresh function map", "context_func.go"), ("args at the root", "context_args.go")],
  [("parent", "enclosing context", "context.go")], ["ContextWithFuncs", "Context.Args"])

p("C10", "A panicking custom function or referenced builder yields an error",
  "If a function called from a template panics, directly or inside of a builder it builds, with an error or any other value, the panic does not escape from building: the build returns a non-nil error instead.",
  ["inputs", "fault_sequences"], "all registered functions, all panic values",
  "No test panics.",
  ["func_exec.go"], [("recover", "func_exec.go safeCall")], [], ["BuildFragment error"])

p("C11", "No template and no literal can crash building",
  "Parsing and building never panic because of the text of a template, the number, types or values of the literals in it, the number of args and fragments, or the signature of a registered function: every such mistake is reported as an error. (Fragment builders that are nil interfaces are not covered.)",
  ["inputs"], "all templates, all function signatures accepted at registration, all literals",
  "Tests use well-formed templates; each index, slice, conversion and assertion on the way needs a guard that holds for all inputs.",
  ["build.go", "func.go", "func_exec.go", "func_builtin.go", "properties.go", "context_args.go", "syntax/parser.go", "syntax/scanner.go", "syntax/lexer.go"],
  [("guards before indexing and reflect calls", "func_exec.go evalCall, evalArg; properties.go Build")], [], ["BuildFragment", "syntax.Parse"])

p("C12", "Template text outside references is preserved verbatim, quotes are opaque",
  "Parsing splits a template into plain texts, bindvars and function calls such that the plain texts are verbatim, contiguous parts of the template and, together with the references, cover all of it in order. '$', '?' and '#' are ordinary text inside of '...', \"...\" and `...` quotes (where '' does not end a '-quote), and doubled $$ and ?? outside of quotes are ordinary text. Every other '?' or '$N' is a bindvar and every other '#name' a function reference; a '$' or '#' that starts neither is an error.",
  ["inputs"], "all templates, of any length and over all characters (including NUL, invalid UTF-8 and multi-byte characters)",
  "A dozen short templates are tested; the scanner is a state machine over unbounded input.",
  ["syntax/scanner.go", "syntax/lexer.go", "syntax/parser.go"],
  [("state functions", "syntax/scanner.go"), ("position tracking", "syntax/lexer.go")],
  [("start, current", "extent of the current token", "syntax/lexer.go")], ["syntax.Parse"])

p("C13", "Prefix and suffix appear exactly when the fragment is not empty",
  "A fragment whose body builds to nothing but white space builds to the empty string, without prefix and suffix. Otherwise the result is the prefix (if not empty) and a space, the body without surrounding white space, and a space and the suffix (if not empty).",
  ["inputs"], "all fragments, prefixes and suffixes",
  "Two cases are tested; combinations of empty bodies, prefixes and suffixes of nested fragments are not.",
  ["build.go"], [("assembly", "build.go Fragment.BuildFragment")], [], ["BuildFragment"])

p("C14", "#join covers exactly the requested range and separates non-empty items",
  "#join evaluates its template once per index, consecutively from the given start (1 by default) to the given end or, without one, to the first index an iterated function reports as invalid; all iterated functions of the template get the same index. Non-empty results are concatenated in order with the separator exactly between them. An invalid first index or an end beyond the range, if explicitly given, a start after the end, more than two indexes, unknown or incompatible functions and a template without function are errors.",
  ["inputs"], "all templates, ranges and list lengths",
  "Four #join calls are tested, no error case among them.",
  ["func_builtin.go", "func.go"], [("range loop", "func_builtin.go funcJoin")], [], ["#join"])

p("C15", "The query contains every configured clause, in SQL order",
  "A query builder that builds successfully renders its clauses in the order WITH, SELECT, FROM and joins, WHERE, GROUP BY, ORDER BY, LIMIT, OFFSET, UNION, and every clause that was configured with at least one (non-empty) element appears: conditions, columns, joins, orders and unions in the order they were added. Limits and offsets appear exactly when set to a positive number.",
  ["inputs", "histories"], "all sequences of builder calls",
  "Tests never use GROUP BY, ORDER BY, LIMIT, OFFSET or joins other than INNER and LEFT.",
  ["sqlb/query_builder.go", "sqlb/query_builder_build.go", "sqlb/query_builder_join.go", "sqlb/query_builder_order.go", "sqlb/query_builder_where.go", "sqlb/query_builder_with.go"],
  [("clause assembly", "sqlb/query_builder_build.go buildInternal")],
  [("QueryBuilder fields", "configured clauses", "sqlb/query_builder.go")], ["QueryBuilder.BuildQuery"])

p("C16", "Only unreferenced optional joins of DISTINCT queries are eliminated",
  "A joined table is left out of the query only if the query is SELECT DISTINCT, the join was declared optional, and nothing that is built refers to it: not the select list, WHERE, GROUP BY or ORDER BY, not a join that is always built, and not, transitively, the ON condition of a table that is referred to by those. In all other cases it is built.",
  ["inputs", "histories"], "all sets of tables, references between them and builder call sequences",
  "Tests have one optional join that is not referenced and one that is, without transitive references.",
  ["sqlb/query_builder_dependecy.go", "sqlb/query_builder_build.go"],
  [("dependency closure", "sqlb collectDependencies, collectDepsFromTable, extractTables2"), ("elimination", "sqlb buildFrom")], [], ["QueryBuilder.BuildQuery"])

p("C17", "CTEs are built when the tables of the query or their dependencies need them",
  "A common table expression is part of the query if and only if its name is a table of the FROM clause or of a join that is built, with or without alias, or it is, transitively, a declared dependency of such a CTE (and it builds to something). CTEs appear once each, in the order they were added.",
  ["inputs", "histories"], "all sets of CTEs and dependency graphs, including cycles",
  "Tests declare no dependencies between CTEs.",
  ["sqlb/query_builder_dependecy.go", "sqlb/query_builder_build.go", "sqlb/query_builder_with.go"],
  [("closure over declared dependencies", "sqlb collectDepsFromCTE"), ("filter", "sqlb buildCTEs")], [], ["QueryBuilder.BuildQuery"])

p("C18", "Misuse of the query builder fails the build, first time and every time",
  "Building fails if a column of the select list, WHERE, GROUP BY, ORDER BY, or of the ON condition of a table these refer to, belongs to a table that is not in FROM or joined, if there is no FROM table or no selected column, or if any builder method was called with an empty table name, an invalid order, or a join that collides with the FROM table. Mistakes made in builder methods are collected and reported by every build, never only by later ones.",
  ["inputs", "histories"], "all sequences of builder calls",
  "No test misuses the builder.",
  ["sqlb/query_builder_dependecy.go", "sqlb/query_builder_errors.go", "sqlb/query_builder_build.go", "sqlb/query_builder_join.go", "sqlb/query_builder_order.go"],
  [("errors collected", "sqlb pushError, anyError"), ("undefined tables", "sqlb collectDepsFromTable")], [("errors", "mistakes so far", "sqlb/query_builder.go")], ["QueryBuilder.BuildQuery error"])

p("C19", "DISTINCT queries select what they order by, after the requested columns",
  "If a query is SELECT DISTINCT, every ORDER BY column is also selected, after all requested columns and under an alias of its own which is what ORDER BY refers to, with the requested direction; otherwise ORDER BY refers to the columns themselves and nothing is added to the select list. Each Order value renders as its own direction and nulls placement.",
  ["inputs", "histories"], "all lists of order items, distinct or not, all builds",
  "OrderBy is not tested at all.",
  ["sqlb/query_builder_order.go", "sqlb/query_builder_build.go"], [("order columns", "sqlb orderFragments"), ("select list", "sqlb buildSelects")], [], ["QueryBuilder.BuildQuery"])

p("C20", "Interpolation quotes every text and never fails silently",
  "In an interpolated query each bindvar is replaced by the arg it refers to: text of an arg only ever appears between single quotes with the single quotes in it doubled, whatever the type it came from (string, named string, Stringer, formatted time, driver.Valuer), numbers and bools appear as literals, nil and nil pointers as NULL, and any other value or a missing arg is an error. The rest of the query is unchanged.",
  ["inputs"], "all queries and args of all types",
  "One string and one time are tested.",
  ["util/interpolate.go"], [("encoding", "util/interpolate.go encodeValue, quoteStringValue")], [], ["util.Interpolate"])

p("C21", "Scan returns all rows or an error, and always closes the rows",
  "Scan returns the rows in order and only if the query, every scanned row and the iteration as a whole succeeded; otherwise it returns the error. The rows are closed on every path once the query succeeded; columns beyond the requested destinations are dropped without touching the caller's slice. Building errors in ScanBuilder and CountBuilder and query errors in Count are returned, and the query is not run if building fails.",
  ["fault_sequences", "inputs"], "all result sets and failures at any point of the iteration",
  "The tests of Scan and Count have no database and run nothing.",
  ["util/scan.go"], [("error checks and deferred Close", "util/scan.go Scan"), ("extra columns", "util/scan.go ScanRow")], [], ["util.Scan", "util.ScanRow", "util.Count"])

p("C22", "Flattening keeps all elements, in order, whatever the slice type",
  "ArgsFlatted returns, in order, each plain value itself and each element of each slice or array given directly or by non-nil pointer, one level deep; every slice type behaves the same, nil and empty slices contribute nothing and nil pointers do not panic. The given slices are neither modified nor aliased by the result.",
  ["inputs"], "all values and slices of all types",
  "A few slice types are sampled.",
  ["util/args.go"], [("type switch and reflection", "util/args.go argsFrom, Ttoa, convertArrayReflect")], [], ["util.ArgsFlatted"])

p("C23", "A function that can be registered can be called, and vice versa",
  "Registration accepts exactly names of one or more ASCII letters and underscores, which are the names a template can reference, and exactly functions that take an optional leading *Context and otherwise numbers, strings and bools (including variadic ones), and return nothing, a string, or a string and an error. For every accepted parameter type a literal of that kind is passed unchanged (a number rounded to a float param may differ), each to the param at its place and those beyond the fixed params to the variadic one, and one of another kind, an integer that does not fit, or a wrong number of literals is reported as an error. Names that are registered already are rejected.",
  ["inputs"], "all function signatures, names, and literals",
  "Five signatures are tested.",
  ["func.go", "func_exec.go", "syntax/scanner.go", "syntax/lexer.go"], [("registration", "func.go addValueFuncs, goodName, goodFunc"), ("call", "func_exec.go evalCall, evalArg")], [], ["ContextWithFuncs", "#func calls"])

p("C24", "Appending to one fragment or builder never affects another",
  "Adding args, fragments, conditions, columns, orders, unions or joins to a fragment or query builder never changes slices, fragments or builders that belong to the caller or to other fragments, even if they were created from the same slice or fragment.",
  ["histories", "inputs"], "all sequences of append calls on fragments created from shared slices with spare capacity",
  "Tests do not share slices between fragments.",
  ["fragment.go", "shortcut.go", "sqlb/query_builder.go", "sqlb/query_builder_join.go", "sqlb/query_builder_where.go", "util/args.go"],
  [("capped appends", "fragment.go AppendArgs, AppendFragments"), ("wrapping instead of modifying", "sqlb join")], [], ["AppendArgs", "AppendFragments"])

p("C25", "No sequence of builder calls can crash a query builder",
  "Calling the methods of a query builder created by NewQueryBuilder in any order, with any tables, columns, orders, fragments and join conditions, and nil pointers in place of any of them (though not nil interfaces), and building it, never panics by itself: every index, nil pointer, map and type assertion on the way is guarded.",
  ["inputs", "histories"], "all sequences of builder calls",
  "Tests never call CrossJoin, never omit From and never pass nil.",
  ["sqlb/query_builder.go", "sqlb/query_builder_build.go", "sqlb/query_builder_dependecy.go", "sqlb/query_builder_join.go", "sqlb/query_builder_order.go"],
  [("guards", "sqlb collectDependencies, extractTables2, join")], [], ["QueryBuilder methods"])

p("C26", "Function calls in templates are parsed into exactly their literals",
  "In a template #name(...) is a call with the comma separated literals as arguments, in order: numbers, 'strings' with '' unescaped to ', true, false, nil and null; #nameN is the call with the single number N, and #name alone is a reference to the function itself which may be followed by anything. An unclosed parenthesis or string, a missing comma or any other argument is an error.",
  ["inputs"], "all templates",
  "Three calls are tested.",
  ["syntax/parser.go", "syntax/scanner.go"], [("call parsing", "syntax/parser.go funcExpr, syntax/scanner.go scanFuncArgs")], [], ["syntax.Parse"])

p("C27", "Building terminates",
  "Building every finite, acyclic tree of fragments and query builders terminates, and so does parsing any template, provided that the registered functions and foreign builders do, and that those #join iterates report the end of what they index. Tables, through their join conditions, and CTEs may refer to each other.",
  ["inputs", "programs"], "all finite inputs",
  "Termination cannot be observed by a passing test.",
  ["func_builtin.go", "sqlb/query_builder_dependecy.go", "syntax/scanner.go"], [("loops bounded by lists, visited sets, and consumed input", "all loops")], [], ["BuildQuery returns"])

p("C28", "Eliminating an optional join does not change the query result",
  "For every database, a query with an eliminated optional join returns the same rows as the query with the join.",
  ["inputs", "programs"], "all databases and schemas",
  "No test runs a query on a database.",
  ["sqlb/query_builder_join.go"], [("LeftJoinOptional", "sqlb/query_builder_join.go")], [], ["query result"])

p("C29", "Fragments, tables and columns keep exactly what they are given",
  "F, Fa and Ff make a fragment with the given raw text, args or fragments and nothing else. WithArgs and WithFragments replace the list, also by an empty one, and AppendArgs and AppendFragments add all given values in order after those the fragment has; nothing else of the fragment changes. A table is built as its name, an aliased table as its alias or, without one, its name; Names are its name and alias. Column of a table or aliased table is built as 'table.name', with the name the table is applied as and the column name as it is, or as the name alone if the table has no name; AnonymousColumn is built as the name alone; both belong to the applied table, also for tracking dependencies. ExprColumn is built as its fragment. Columns, AnonymousColumns and ExprColumns return one column for each given name or fragment, in order.",
  ["inputs"], "all texts, names, aliases and lists",
  "Tests use a few names and lists; dropping, reordering or changing some of them needs particular values to show.",
  ["fragment.go", "shortcut.go", "sqlb/table.go", "sqlb/table_aliased.go", "sqlb/table_column.go"], [("fragment constructors and setters", "shortcut.go, fragment.go"), ("columns and tables", "sqlb/table.go preBuildColumn, sqlb/table_aliased.go AppliedName")], [], ["fields of Fragment", "built columns and tables"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
