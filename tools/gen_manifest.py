#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it after editing: python3 tools/gen_manifest.py)."""
import json, os
BASE = ("Abstract interpretation of the type-checked SSA of /repo's current source, with path partitions and summarised loops "
        "over symbolic values; nothing of /repo is run. Trusted: the checker's models of the Go standard library, go/ssa; assumed: "
        "foreign FragmentBuilders and registered functions keep the same contract (they get none of /repo's code to check). ")
CLAIMED = {
 "C01": ("abstract interpretation of the SSA; event/text correspondence on every path partition",
  BASE + "On every successful partition of every text building function the sequence of committed args and nested builds is the sequence of pieces of the returned text."),
 "C02": ("abstract interpretation of the SSA; transfer function of every arg store, per partition",
  BASE + "The transfer function of each store (append / merge / truncate) is decided for all arg values and all histories by induction over commits; equality is that of Go map keys."),
 "C03": ("abstract interpretation of the SSA; typestate of the usage flags, on every path partition",
  BASE + "Flags start false, are set only together with building their element, are reset when text is dropped, and every successful partition of a fragment build has checked every flag of both lists."),
 "C05": ("abstract interpretation of the SSA; facts about the index at every build of an element",
  BASE + "Every build of an element of a property list is at index i-1 of the innermost fragment's list with 1<=i<=len, and every other index yields an error (ErrInvalidIndex for functions)."),
 "C06": ("abstract interpretation of the SSA; every error result must reach the error result, wrapped",
  BASE + "Every error that becomes non-nil on a partition makes the function fail with an error wrapping it; #join's end of list is the only exception."),
 "C07": ("abstract interpretation of the SSA; result tuples of every failing partition",
  BASE + "Every partition of every function with an error result that may fail returns zero values beside the error."),
 "C08": ("abstract interpretation of the SSA; effect and ownership analysis of everything that is part of building",
  BASE + "Every store, append, map update and deletion on every partition is to memory the function allocates, to the context's own state, or to a list/map such a field exclusively owns (ownership is inferred from all assignments); iteration over maps has no order dependent effect."),
 "C09": ("abstract interpretation of the SSA; ownership of context state, lookups decided by loop facts",
  BASE + "What a context holds is allocated by the function that makes it, package level variables are not written after initialisation, functions are looked up innermost first, args live in the root."),
 "C10": ("abstract interpretation of the SSA; recover coverage of the calls of registered functions",
  BASE + "Each call of a registered function is made under a deferred recover that stops any panic value and turns it into a non-nil error."),
 "C13": ("abstract interpretation of the SSA; result text of every partition against the specified concatenation",
  BASE + "The result text of every successful partition equals the specified concatenation, decided by the facts of the partition."),
 "C14": ("abstract interpretation of the SSA; facts about the index, text and exits of the iterations of #join, per class of index lists",
  BASE + "For every class of index lists (none, start, start and end, invalid ones) the loop's first index, step, exits and appended text are decided on every partition of an iteration, for all templates, functions and lengths. A start or end below 1 is not specified."),
 "C15": ("abstract interpretation of the SSA; effects of the builder methods on the clauses, and the text of every partition of the build",
  BASE + "Every builder method changes the clause it is for and nothing else, and the text of every successful partition of the build has the clauses in order, leaving one out only if its list or number is known to have none. Which joins and CTEs are left out is decided by C16 and C17."),
 "C16": ("abstract interpretation of the SSA; what each partition and loop iteration of the build and of the collection of dependencies knows and marks",
  BASE + "On every successful partition an omitted table is known to be optional in a distinct query and absent from the set of needed tables; that set is closed: every root (select list, WHERE, GROUP BY, each order, each join always built) is handed to the extraction, the extraction covers every class of reference of every fragment list recursively, and the marker marks what it is given and follows the table's own ON condition, by induction over the recursion. That an unreferenced join is in fact eliminated is not claimed."),
 "C17": ("abstract interpretation of the SSA; membership facts of each iteration over the CTEs and tables, and the marker's partitions",
  BASE + "Each iteration that adds (or skips) a CTE knows that its name is (is not) in the final map of needed CTEs, whose only entries come from the marker called exactly for the CTEs named by tables that are built and, recursively, for each of their dependencies."),
 "C18": ("abstract interpretation of the SSA; facts of every successful partition, and of the partitions of builder methods that meet a misuse",
  BASE + "No partition that succeeds is compatible with a collected error, no FROM, no selected column or an undefined table among the references; each builder method's partition with a misuse adds to the errors, which nothing takes away."),
 "C19": ("abstract interpretation of the SSA; the select list and ORDER BY of every partition of the build, and what an iteration adds for an order",
  BASE + "Every successful partition of the build of a DISTINCT or other query is decided, for all lists of orders; each iteration's alias has the index of the order; each constant's direction is read from the package's tables or the partition."),
 "C20": ("abstract interpretation of the SSA; the text each iteration appends is matched against the grammar of literals under the type and kind facts of its partition",
  BASE + "Interpolate is inlined with everything it encodes with; the partitions of an iteration are kept apart by the dynamic type and the reflect kind of the arg, and each one must append exactly the literal the rule gives for what it knows; a function that calls itself to encode what a Valuer returns is analysed on its own, by induction. Loops that double quotes are recognised by what each of their iterations appends."),
 "C21": ("abstract interpretation of the SSA; a protocol (typestate) check of the database calls on every partition",
  BASE + "On every partition, the ones that panic included, the calls on the rows follow the protocol query, (Next, destination, Columns, Scan)*, Next false, Err, and Close comes at the end exactly when there are rows; success needs every error known to be nil, failure forwards the error; every iteration adds the destination that was scanned; ScanRow's destinations are the given ones and one accepting anything per further column (counted by the relational facts); Count's query text has the query between parentheses."),
 "C22": ("abstract interpretation of the SSA; what each iteration over the values appends, and the kind facts it knows",
  BASE + "Every iteration appends the value itself only if its kind (and its pointee's) excludes slices and arrays, appends every element in order of a source known to be the value's list, or nothing for a source known to be empty; the result is a list of its own."),
 "C24": ("abstract interpretation of the SSA; effect and ownership analysis of every exported function",
  BASE + "Every store and append of every exported function is to memory it allocates, to its receiver's fields, to a list or map such a field exclusively owns, or appends to a capped list."),
}

TAPE = ("The parser is interpreted on a tape of character classes with values relative to the position, and states that differ in nothing the rest can depend on are merged, "
        "until no new state appears: every template of any length is covered; next to each state runs an automaton of the grammar of templates. ")
CLAIMED["C04"] = ("abstract interpretation of the parser on all templates at once, against an automaton of the grammar; abstract interpretation of the lookup",
  BASE + TAPE + "Each bindvar that is returned has the style and index of the template, and mixed styles end with an error; each index is looked up in the args of the fragment the template belongs to.")
CLAIMED["C12"] = ("abstract interpretation of the parser on all templates at once, against an automaton of the grammar; abstract interpretation of the building loop",
  BASE + TAPE + "Plain texts have the extents between the references of the template, in order, without gaps, and each iteration of the build adds exactly the text of a plain text. What an unclosed quote is, and non-ASCII white space before arguments, is not specified.")
CLAIMED["C26"] = ("abstract interpretation of the parser on all templates at once, against an automaton of the grammar",
  BASE + TAPE + "Names, number, order, kinds, extents and the conversions of arguments are those of the template, and malformed calls end with an error. At most 4 arguments are kept apart at a time. A trailing comma is not specified.")
SAFE = ("Invariants of fields, list elements and params (non-nil, ranges of enums, relations between lengths and counts) are inferred by dropping every candidate that some function breaks, until none is left to drop; with them, each index, slice, nil dereference, nil interface call, nil map update, type assertion, hash, division and reflect call has to be safe on every partition that reaches it. ")
CLAIMED["C11"] = ("abstract interpretation with inferred object invariants; every construct that may panic is an obligation",
  BASE + SAFE + "The parser is interpreted on all templates at once. Constructs below a recover() are errors, not panics. Not decided: nil FragmentBuilder interfaces, rollbacks to a checkpoint of another path (C02 decides the stores), stack depth.")
CLAIMED["C25"] = ("abstract interpretation with inferred object invariants; every construct that may panic is an obligation",
  BASE + SAFE + "Histories of builder calls are covered since every exported method keeps the invariants. Not decided: nil interfaces passed as builders, cyclic CTE or join graphs (termination, C27).")
CLAIMED["C23"] = ("abstract interpretation of the predicates and of the call per kind of param and scenario of signature; accept/reject partitions",
  BASE + "Every partition of a registration that accepts knows the name and signature to be good and every one that rejects knows one of them to be bad; the name predicate is decided for each class of characters, the signature predicate for every kind at a generic place, every combination of results, variadic or not, with and without a context; each literal is converted to the type of its own param, and the table of kinds and types of literals is complete. Not decided: name predicates without a loop over runes, calls that build the argument list with append, what reflect's Call does.")
CLAIMED["C27"] = ("abstract interpretation: cycles of the parser's state graph, ranks of every generic iteration, and descent or visited sets of every recursive call",
  BASE + "The parser is interpreted on all templates at once, and no cycle of its abstract states leaves the template unread; every partition of an iteration of every other loop has a rank in common (next entry, counter with a bound the loop keeps, link set in new objects only, or foreign code given the counter, as in #join); every recursive call passes a strict part of its own param, what foreign code returned, or is made after adding to a set that's passed on what it's known not to have had. Not decided: a function given to #join that never reports the end of its list, stack depth, cyclic fragments.")
CLAIMED["C29"] = ("abstract interpretation of every constructor, setter and list of columns; fields of the results compared with what was given, per partition",
  BASE + "Every partition of F, Fa, Ff, WithArgs, WithFragments, AppendArgs and AppendFragments leaves each field of the fragment as specified; the applied name of a table is decided for every partition of what is known of its alias; every partition of an iteration of Columns, AnonymousColumns and ExprColumns adds one column, whose built fragment is compared with 'table.name'. Not decided: an empty column name, which is nothing or the prefixed nothing.")
NA = {
 "C28": "It is about the semantics of SQL for every database; nothing in this repository's source decides it.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="cd checker && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o /dev/null .",
  checks=[dict(property=i, quick_cmd="./check.sh " + i, technique=CLAIMED[i][0], level="other", level_note=CLAIMED[i][1]) for i in ids if i in CLAIMED],
  not_applicable=[dict(property=i, reason=NA.get(i, "No static check has been built for it (yet).")) for i in ids if i not in CLAIMED])
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
