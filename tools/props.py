# Single source for properties.jsonl and MANIFEST.json (run tools/mkspec.py).
# Each entry: id, title, statement, over, text, why, files, mechanism[(name,where)],
# and either claim=(technique, level, level_note) or na=reason.
PROPS = []
def P(id, title, statement, over, text, why, files, mech, claim=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, claim=claim, na=na))

AI = "abstract interpretation of the evaluator's SSA form to a fixpoint, with a specification monitor"

# ---- expressions -------------------------------------------------------
P("A01", "Boolean connectives follow three-valued logic",
  "AND, OR, XOR and NOT over any number of operands compute Kleene three-valued logic: a false operand decides AND and a true operand decides OR even next to null, otherwise null is contagious. An operand that is neither boolean nor null is reported as an error unless another operand alone decides the result or makes it null.",
  ["inputs","programs"], "every connective, every number of operands, every combination of operand values (true, false, null, any other kind) and of failing operands",
  "the tests evaluate a handful of two-operand conditions and none with null",
  ["relationaleval.go"], [("and/or/xor/not evaluators","relationaleval.go")])
P("A02", "Ordering of comparable values is a consistent total order",
  "For any two values of the same comparable kind (boolean, integer, float other than NaN, string, duration, date, time, date-time) exactly one of less, equal and greater holds, swapping the operands mirrors the answer, equality means identical content, and the order is transitive. An integer and a float are compared after converting the integer to float; values of kinds that cannot be ordered are reported as an error, never as equal.",
  ["inputs"], "every pair and triple of values of every kind",
  "tests compare a few integers and strings; the law quantifies over all pairs and triples, including extremes where a subtraction overflows",
  ["relationaleval.go"], [("primitive comparison","relationaleval.go comparePrimitiveValues")])
P("A03", "Comparison operators and chains mean what they say",
  "Each of =, <>, <, <=, >, >= yields true exactly when the order of its two operands says so, and null when an operand is null. A chain a op1 b op2 c is the three-valued conjunction of its adjacent comparisons.",
  ["inputs","programs"], "every operator, every chain length, every operand value",
  "tests use = and < on two operands only; >= and chains are never evaluated",
  ["relationaleval.go","ast.go"], [("comparison evaluator","relationaleval.go"),("operator token capture","ast.go oC_PartialComparisonExpression")])
P("A04", "Arithmetic computes the right operation or reports an error",
  "For every pair of operand kinds, each arithmetic operator either computes exactly that operation on its operands in the written order with the documented result kind, or reports an error; it never returns an operand unchanged or drops a failing step. Null with any operand that is null or supported yields null, dividing or taking a remainder by zero is always an error, and an even number of minus signs in front of an operand leaves it as it is.",
  ["inputs","programs"], "every operator, every pair of operand kinds, every chain length, every value including zero",
  "tests evaluate a few integer and duration sums; the kind matrix has over a thousand cells and chains are unbounded",
  ["arithmeticeval.go"], [("arithmetic evaluators","arithmeticeval.go")])
P("A05", "List membership, indexing and slicing are bounds-safe and exact",
  "x IN list is true if an element equals x, otherwise null if x or an element is null, otherwise false; list[i] is the i-th element (counting from the end when negative) or null outside the list; list[a..b] is the elements from a up to but excluding b, clamped to the list, with missing bounds defaulting to the ends. A null list or index gives null, a wrong kind, an incomparable element or a negative slice bound gives an error, and no index can crash the evaluation.",
  ["inputs","programs"], "every list length, every index and bound, every operand kind",
  "no test evaluates IN, an index or a slice",
  ["eval.go","ast.go"], [("list operators","eval.go stringListNullOperatorExpressionPart.evaluate")])
P("A06", "CASE takes the first matching branch",
  "A CASE expression evaluates to the THEN of the first WHEN that matches (equal to the test value, or true when there is no test), otherwise to ELSE, otherwise to null, and evaluates no other THEN. A null WHEN condition does not match, a null test value matches nothing, and comparing the test value with an incomparable value is an error.",
  ["inputs","programs"], "every number of alternatives, every value of test and conditions",
  "one test evaluates one CASE with three alternatives and no null",
  ["eval.go","ast.go"], [("CASE evaluator","eval.go caseClause.Evaluate")])
P("A07", "String predicates and IS NULL are exact",
  "STARTS WITH, ENDS WITH and CONTAINS test exactly the named relation with the left operand as the searched string, give null if either operand is null, and report an error for other kinds. IS NULL and IS NOT NULL always give a boolean, true exactly when the operand is null or not null respectively.",
  ["inputs"], "every operand value and kind",
  "no test evaluates a string predicate or IS NULL",
  ["eval.go"], [("string operators","eval.go stringOperatorExpression.evaluate"),("null operator","eval.go")])
P("A08", "Reading a property gives that property, null, or an error",
  "Reading a property from a node, a single relationship or a map yields the stored value under that very key, or null when it is absent or the base is null; any other base is reported as an error. Every kind of stored property value can be read without crashing.",
  ["inputs","histories"], "every base kind, every key, every stored Go value",
  "tests read string properties of nodes; the graph can hold any Go value",
  ["eval.go","value.go"], [("property lookup","eval.go propertyOrLabelsExpression.Evaluate"),("native conversion","value.go ValueOf")])
P("A09", "Number literals denote the written number",
  "A decimal, hexadecimal, octal or floating-point literal denotes the number it spells in its own base, and a literal that does not fit is reported as a syntax-time error rather than a wrong value or a crash.",
  ["inputs"], "every literal text the grammar accepts", "tests use small decimal literals only",
  ["ast.go"], [("literal builders","ast.go oC_IntegerLiteral, oC_DoubleLiteral")])
P("A10", "String literals and escaping helpers round-trip",
  "Escaping any (valid UTF-8) string with the string-literal, label or property-key helper and using it in a query denotes exactly the original string; escape sequences in string literals are decoded.",
  ["inputs"], "every string", "no test uses a quote, a backslash or a backtick inside a literal",
  ["literal.go","ast.go"], [("escape helpers","literal.go"),("literal decoding","ast.go oC_Literal, oC_SymbolicName")])
# ---- robustness --------------------------------------------------------
P("R01", "Evaluation failures are never swallowed",
  "When evaluating any sub-expression, pattern, clause or function that an operation depends on fails, the operation itself fails; it never continues with a missing or stale value and reports success.",
  ["inputs","programs","fault_sequences"], "every evaluation step of every expression kind and clause, every failing operand",
  "tests hardly ever make an inner evaluation fail; there are over a hundred failure edges",
  ["eval.go","arithmeticeval.go","relationaleval.go","update.go","patterneval.go","literal.go","functions.go","stringfuncs.go","scalarfuncs.go","datefuncs.go"], [("error propagation at every call","all evaluators")],
  na="a rule for the whole package needs the evaluators' many legitimate tests of an error (a caller that turns it into a null or another result) told apart from swallowed ones, which is a matter of each construct's meaning; failing operands, searches and functions are enumerated in the check of each construct instead (A01 to A10, G01 to G10, Q01 to Q09)")
P("R02", "Evaluating any expression never crashes",
  "Evaluating any parsed expression against any operand values ends with a value or an error; it never panics, and success always comes with a value.",
  ["inputs","programs"], "every expression kind the grammar accepts, every operand kind and value",
  "a crash needs an operand combination no test supplies",
  ["eval.go","arithmeticeval.go","relationaleval.go","literal.go","value.go"], [("expression evaluators","eval.go, arithmeticeval.go, relationaleval.go, literal.go")],
  na='absence of panics over all expressions needs invariants on which fields of values and trees are non-nil that the types do not state and no sound inference in reach gives without false alarms; panics on the paths the checks of expressions follow (A01 to A10, F01 to F03, R04) are reported there')
P("R03", "Built-in functions never crash",
  "Calling any built-in function with any number of arguments it admits and any argument values ends with a value or an error; it never panics, and success always comes with a value.",
  ["inputs"], "every registered function, every admitted arity, every argument kind and value",
  "few functions are called at all by tests, none with hostile arguments",
  ["functions.go","stringfuncs.go","scalarfuncs.go","datefuncs.go"], [("argument validation","function bodies"),("arity check","eval.go functionInvocation.Evaluate")])
P("R04", "Parsing any text never crashes",
  "Parsing any text as a query or as a pattern expression returns a parsed query or an error and never panics, including constructs the evaluator does not support.",
  ["inputs"], "every input text", "tests parse about thirty well-formed texts",
  ["lang.go","ast.go"], [("tree builders","ast.go oC_*"),("error listener","lang.go")])
P("R05", "Every syntax error is reported to the caller",
  "Whenever the lexer or the parser reports a syntax error in the given text, the parse entry points return an error and no parsed query.",
  ["inputs"], "every malformed input, at every entry point", "no test parses malformed text",
  ["lang.go"], [("error listeners","lang.go GetParser, Parse, ParsePatternExpr")])
P("R06", "Executing any update or match clause never crashes",
  "Executing any parsed clause (MATCH, CREATE, MERGE, SET, REMOVE, DELETE, RETURN, UNION) against any rows ends with a result or an error and never panics.",
  ["inputs","programs","histories"], "every clause, every row content, every variable binding",
  "tests run clauses on small well-typed graphs",
  ["update.go","patterneval.go","eval.go","resultset.go"], [("clause evaluators","update.go, patterneval.go, eval.go")],
  na='absence of panics over all clauses and rows needs invariants on trees, rows and graph objects that the types do not state; panics on the paths the checks of clauses follow (G01 to G10, Q01 to Q03) are reported there')
# ---- functions ---------------------------------------------------------
P("F01", "The function table is self-consistent",
  "Every built-in function is reachable under its own name, has exactly one implementation, declares exactly the argument counts its implementation handles, is not registered twice, and no two names share an implementation. A call evaluates its arguments in order and passes them all on, and is rejected if there are too few or too many.",
  ["inputs","programs"], "every registered function and every call arity",
  "tests call a few functions by name with correct arity",
  ["functions.go","stringfuncs.go","scalarfuncs.go","datefuncs.go","eval.go"], [("registry","functions.go globalFuncs"),("arity check","eval.go")])
P("F02", "Null arguments give null and *OrNull functions never fail",
  "Every built-in function except range and print that is given null for an argument it uses, the others being admissible, returns null instead of failing or inventing a value. A conversion whose name ends in OrNull never reports an error.",
  ["inputs"], "every function, every argument position, every argument value", "no test passes null to a function",
  ["functions.go","stringfuncs.go","scalarfuncs.go","datefuncs.go"], [("null guards","function bodies")])
P("F03", "Results stay within the documented value kinds",
  "Every value produced by an expression operator or a built-in function is null or one of the documented value kinds, so that any result can be fed to any other operator, function, result set or update.",
  ["inputs"], "every operator and function, every argument value", "tests look at the results of a few calls",
  ["value.go","functions.go","stringfuncs.go","scalarfuncs.go","datefuncs.go","eval.go"], [("value construction","all RValue constructions"),("documented kinds","value.go Value")])
# ---- graph -------------------------------------------------------------
P("G01", "Queries without update clauses never modify the graph",
  "Evaluating expressions, MATCH, RETURN, UNION, pattern searches and built-in functions never creates, deletes or changes a node, relationship, label or property; only CREATE, MERGE, SET, REMOVE and DELETE do.",
  ["inputs","programs","histories"], "every read-only query over every graph", "tests never compare the graph before and after a read",
  ["eval.go","patterneval.go","lang.go","functions.go"], [("graph access","all calls into lpg")])
P("G02", "Every property write goes through the configured filter",
  "When a property filter is configured, every property value a query stores in a node or relationship, by whatever clause, is the filter's result for that key and value, applied exactly once.",
  ["inputs","programs","configurations"], "every clause that writes properties, every key and value", "no test configures a filter",
  ["update.go","eval.go","ctx.go"], [("filter call","ctx.go PropertyValueFromNative")])
P("G03", "Update clauses run once per row with that row's bindings",
  "A CREATE, MERGE, SET, REMOVE or DELETE that follows MATCH is applied exactly once for every matched row, in row order, and sees exactly that row's variable bindings, never those left by another row.",
  ["inputs","histories"], "every clause, every number of rows and columns", "tests update over one-row results",
  ["update.go","eval.go","resultset.go"], [("row loops","update.go")])
P("G04", "DELETE removes attached nodes only with DETACH",
  "DELETE without DETACH refuses with an error, removing nothing for that node, if the node still has a relationship in either direction; DETACH DELETE removes the node and its relationships. Deleting the same entity again within one DELETE clause is harmless, deleting a relationship or path removes its relationships, and deleting any other value is an error.",
  ["inputs","histories"], "every value deleted, every row multiplicity, every attachment direction", "one test deletes one relationship",
  ["update.go"], [("delete clause","update.go deleteClause.Update")])
P("G05", "MERGE creates only when nothing matched",
  "For each row MERGE creates its pattern exactly when the pattern has no match and otherwise creates nothing; ON CREATE actions run exactly when it created and ON MATCH actions exactly when it matched.",
  ["inputs","histories"], "every row, every pattern, every combination of actions", "tests merge one pattern in a few graphs",
  ["update.go"], [("merge clause","update.go merge")])
P("G06", "MATCH keeps a row exactly when WHERE is true",
  "MATCH yields, for every row of the clauses before it, one row for every combination of matches of its pattern parts for which WHERE evaluates to true (or is absent), and drops combinations for which it is false or null; each row carries the variables of every part.",
  ["inputs","histories"], "every number of pattern parts and matches, every condition value", "tests match one or two parts with simple conditions",
  ["patterneval.go"], [("match evaluation","patterneval.go Match.GetResults")])
P("G07", "SET and REMOVE change exactly what they name",
  "Assigning null or removing a property deletes it and never stores a null; n = map replaces all properties of n, n += map merges and deletes keys given null, and label assignment or removal adds or removes exactly the named labels. Only the named entity is changed.",
  ["inputs","histories"], "every item form, every value", "tests set non-null values on nodes only",
  ["update.go","eval.go"], [("set items","update.go setItem.update"),("assignable property","eval.go propertyExpression.Evaluate")])
P("G08", "CREATE builds every part and respects bound variables",
  "CREATE makes one node for every node pattern whose variable is unbound and one relationship for every relationship pattern, with the written type and properties, and reuses a bound node without changing it. Redefining a bound node with labels or properties, rebinding a bound relationship, a variable-length relationship or several types is an error and never creates that element.",
  ["inputs","histories"], "every pattern shape and binding state", "tests create two or three shapes",
  ["update.go"], [("create","update.go nodePattern.Create, relationshipPattern.Create, PatternPart.Create")])
P("G09", "Relationship direction is read the same way everywhere",
  "A left arrow means the relationship ends at the left node and a right arrow that it ends at the right node, in MATCH, CREATE, MERGE and pattern searches alike; without an arrow, or with both, matching accepts either direction.",
  ["inputs","programs"], "every arrow form in every clause", "tests use mostly right arrows",
  ["update.go","patterneval.go","ast.go"], [("direction in patterns","patterneval.go relationshipPattern.getPattern"),("direction in creation","update.go relationshipPattern.Create")])
P("G10", "Pattern constraints all reach the matcher",
  "Every label, relationship type, property constraint, length bound and variable written in a node or relationship pattern is passed to the graph matcher unchanged: a missing lower or upper length is unbounded, no length means exactly one.",
  ["inputs","programs"], "every pattern form", "tests use few patterns with properties and ranges",
  ["patterneval.go","literal.go"], [("pattern translation","patterneval.go getPattern")])
# ---- query -------------------------------------------------------------
P("Q01", "Every result row has exactly the declared columns",
  "Each row of a query that returns explicit items has a value for every declared column and no other: the alias of an item, or its position when it has none, both in the column list and in the rows.",
  ["inputs","programs"], "every RETURN form, every number of rows and items", "tests look up single known columns",
  ["eval.go","ast.go"], [("projection","eval.go projectionItems.Project"),("column names","ast.go getProjectedNames")])
P("Q02", "SKIP and LIMIT cut the result exactly",
  "SKIP n drops the first n rows and LIMIT m keeps at most m of the rest, for every query that returns rows; a value that is not a non-negative integer is an error.",
  ["inputs","programs"], "every query form, every number of rows, every skip and limit", "no test uses SKIP or LIMIT",
  ["eval.go"], [("paging","eval.go singlePartQuery.Evaluate")])
P("Q03", "UNION removes duplicates and UNION ALL keeps every row",
  "UNION ALL yields the rows of all branches; UNION yields each distinct row once, where two rows are the same when every column holds the same value, nulls included. Two values of the documented kinds are the same exactly when they have the same content (numbers by numeric value), and every value other than NaN is the same as itself.",
  ["inputs"], "every number of branches and rows, every value kind", "no test evaluates a UNION",
  ["resultset.go","value.go","eval.go"], [("row identity","value.go IsValueSame"),("union","resultset.go ResultSet.Union")])
P("Q04", "A failed query leaves the caller's variables untouched",
  "A query binds variables only in its own scope while it runs: the caller's variables are unchanged when it fails, UNION branches do not see each other's variables, and the variables the caller sees afterwards are those of the finished query.",
  ["inputs","histories","fault_sequences"], "every query, every point of failure", "no test looks at variables after a failure",
  ["eval.go","ctx.go"], [("sub-contexts","eval.go regularQuery.Evaluate"),("context","ctx.go")])
P("Q05", "A parsed query can be evaluated again with the same meaning",
  "Evaluating a parsed query leaves no trace in it that depends on variables, parameters, the graph or the context: a later evaluation, in the same or another context, means the same as evaluating a freshly parsed copy.",
  ["inputs","histories","configurations"], "every query, every sequence of evaluations and contexts", "one test re-evaluates one query",
  ["eval.go","arithmeticeval.go","literal.go","functions.go"], [("constant caching","constValue and constArgs fields"),("constness","IsConst")])
P("Q06", "A parsed query can be evaluated from several goroutines",
  "Evaluating one parsed query concurrently in separate contexts has no data race on shared state.",
  ["schedules"], "every interleaving of evaluations of one parsed query", "no test is concurrent",
  ["eval.go","arithmeticeval.go","literal.go","functions.go"], [("shared parsed query","AST types"),("function registry","functions.go globalFuncs")])
P("Q07", "Accepted syntax is either honoured or rejected",
  "Every clause, modifier and operator the grammar accepts either affects evaluation as written or is rejected with an error; nothing the user writes is silently dropped.",
  ["programs"], "every construct of the grammar", "tests use a third of the grammar",
  ["ast.go","eval.go","Cypher.g4"], [("tree builders","ast.go"),("evaluators","eval.go, patterneval.go, update.go")])
P("Q08", "Names are used exactly as written",
  "Variables, labels, relationship types, property keys, parameters and function names denote exactly the written characters (without enclosing backticks), whatever their case and whether or not they coincide with a keyword (except that the keyword EXISTS, used as a function, may name one function in every case).",
  ["inputs"], "every name text", "tests use plain identifiers only",
  ["ast.go"], [("name builders","ast.go oC_SymbolicName, oC_SchemaName, oC_ReservedWord, oC_Variable")])
P("Q09", "Parameters and functions resolve through the context chain",
  "A parameter, variable or function is looked up in the current context and then in each enclosing one; the innermost definition wins, an undefined name is an error naming it, and defining a name in an inner context never changes an outer one.",
  ["inputs","histories"], "every nesting depth and name", "tests use a single context",
  ["ctx.go"], [("context lookups","ctx.go")])
# ---- out of reach ------------------------------------------------------
P("N01", "MATCH finds every match of a pattern and nothing else",
  "For every graph and pattern, the rows returned are exactly the assignments of nodes and paths that satisfy the pattern.",
  ["inputs","histories"], "every graph and pattern", "tests cover a few graphs",
  ["patterneval.go"], [("pattern engine","lpg dependency")],
  na="the search runs inside the lpg dependency over runtime graph contents; no source-level argument in reach bounds it (the translation of the pattern into the matcher's input is G10)")
P("N02", "Date and duration arithmetic follows the calendar",
  "Adding and subtracting durations to dates and times yields the calendar-correct instant for every date.",
  ["inputs"], "every date and duration", "tests do no date arithmetic",
  ["arithmeticeval.go","datefuncs.go","duration.go"], [("date arithmetic","arithmeticeval.go")],
  na="numerical result over runtime quantities computed by the time package; the operand kinds, order and sign are covered by A04")
P("N03", "A failed query leaves the graph unchanged",
  "If a query with update clauses fails, the graph is as it was before the query.",
  ["inputs","fault_sequences"], "every failing update", "no test fails an update halfway",
  ["update.go"], [("none: updates are applied immediately","update.go")],
  na="the library offers no transactions or undo and does not promise rollback: there is no structure in the source that could make it hold")
P("N04", "ORDER BY sorts the result",
  "Rows are returned in the order the sort items define.",
  ["inputs"], "every query with ORDER BY", "no test sorts",
  ["eval.go","ast.go"], [("order clause","ast.go order")],
  na="ORDER BY has no implementation to analyse; that it is not silently dropped is part of Q07")
P("N05", "Query evaluation terminates within bounded memory",
  "Every query over a finite graph terminates.",
  ["inputs"], "every query and graph", "tests run small graphs",
  ["patterneval.go","functions.go"], [("loops over rows and matches","patterneval.go, update.go")],
  na="termination and result size depend on runtime graph cycles and list lengths (range with huge bounds); no sound static bound is in reach")

# ---- claims: property -> (technique, level, note) ------------------------------------------
CLAIMS = {
"A01": (AI + " for Kleene's tables", "other", "sound over the modelled Go subset for any operand list; operands' own evaluators are opaque"),
"R04": ("abstract interpretation of every tree builder over all parse trees admitted by the grammar (Cypher.g4 parsed on every run)", "other", "trusts that the ANTLR runtime and generated parser conform to the grammar; helpers on literal text are explored up to a time bound"),
"R05": ("typestate over the parser's error listeners, by abstract interpretation of the entry points", "other", "trusts the ANTLR runtime to report errors to attached listeners"),
"G01": ("interprocedural effect analysis: call graph from the read-only clauses' evaluators to the graph library's mutators", "other", "VTA call graph; effects inside lpg are taken from its exported mutator names"),
"Q05": ("interprocedural may-write effect analysis over a points-to abstraction of the parsed query and package variables", "other", "field- and type-based points-to; reflection and unsafe are absent from the package"),
"Q06": ("interprocedural may-write effect analysis: evaluation writes nothing reachable from the parsed query or package variables", "other", "as Q05; the graph itself is owned by the caller"),
"F01": ('abstract interpretation of the package initialisation (function table), of every implementation with each argument count, and of the call evaluator', "other", 'argument counts are exact; the names GetFunction resolves are Q09'),
"R03": ('abstract interpretation of every registered function over all argument counts and kinds, with panic obligations', "other", 'external library calls are modelled as total; user-registered functions are out of scope'),
"F02": ('abstract interpretation of every registered function with null-tracking of each argument', "other", 'nested nulls inside maps are out of scope'),
"F03": ('backward type-flow analysis of every construction of a value', "other", 'trusts that host programs and the graph matcher hand over documented kinds'),
"A03": (AI + " for the truth of comparison chains", "other", 'Unbounded chains in the evaluator; written comparisons from the parse tree up to four operands. The comparator itself is A02.'),
"A02": (AI + " for every relation between the operands, and a complete check of the order laws on the resulting table", "other", 'Complete for the comparable kinds at the level of component relations (fields of a duration, instants of the time kinds); NaN excluded.'),
"A05": (AI + " of builder and evaluator composed, for every written form, against the meaning of the text", "other", 'Lists of up to four opaque elements; every index and bound. The comparator itself is A02.'),
"A06": (AI + " of builder and evaluator composed, for every written form, against the meaning of the text", "other", 'Up to three alternatives; every class of test and condition value.'),
"A07": (AI + " of builder and evaluator composed, for every written form, against the meaning of the text", "other", 'Chains of up to two operators; strings.HasPrefix, HasSuffix and Contains are trusted to be the relations.'),
"A04": (AI + ", operation terms in canonical form", "other", 'every written form of up to three operands (four for ^), every kind of each operand, lists of up to three elements'),
"A08": (AI + "; every grammar shape of a chain of up to three lookups, every kind of base and of stored value, against a specification of lookup", "other", 'Chains of up to three lookups; the graph library is trusted to return what was stored.'),
"A09": (AI + " of literal builders with the token text unknown", "other", 'strconv is trusted; the lexer is trusted to deliver the tokens of Cypher.g4.'),
"A10": (AI + " over strings whose characters are unknown, byte by byte", "other", 'Strings of up to three characters of every width, valid UTF-8; the lexer is trusted to deliver the tokens of Cypher.g4.'),
"Q09": (AI + " of every history of up to three definitions and removals over four nested contexts, against a specification of scoping", "other", 'Histories of up to three operations over a chain of three contexts and a sibling; names are compared as unknown strings.'),
"G10": (AI + " of pattern builders and of MATCH, MERGE and pattern searches, for every form of node and relationship, up to the call into the graph library", "other", 'Patterns of up to two relationships; independent parts of a pattern vary one at a time. That the graph library honours the pattern is out of scope.'),
"G08": ('abstract interpretation of builder and creating evaluator on every form of pattern, with all ways its variables can coincide and be bound, comparing the recorded graph effects with the text', "other", 'all forms of node and relationship patterns with maps of up to 3 entries, up to two parts and two relationships; bindings, parameters, filter and nulls are enumerated; the graph package is assumed to do what its interface says'),
"G09": ('abstract interpretation of builder and evaluators of patterns on every form of arrow, comparing direction flags handed to the matcher and ends of created relationships with the text', "other", 'all arrow forms, alone and in pairs, in MATCH, CREATE, MERGE and pattern searches'),
"G07": ('abstract interpretation of builder and evaluator of SET and REMOVE on every form of item over two rows, comparing the properties and labels all nodes end up with against the text', "other", 'all forms of items alone and in pairs; variables that coincide, hold one node, different nodes, null, other values or nothing; values of every kind, failing expressions and a filter are enumerated; only nodes, as the code refuses to change relationships; the graph package is assumed to do what its interface says'),
"G02": ('abstract interpretation of builder and evaluator of CREATE, MERGE and SET with a property filter that is an unknown function, plus an inventory of all calls that store properties and of all contexts made during evaluation', "other", "all forms of node and relationship patterns and SET items that name properties; every value in the abstract graph must be the filter's only result for its key and the written value; calls outside these runs must store a direct result of the filter"),
"G05": ('abstract interpretation of builder and evaluator of MERGE with modelled searches, comparing what is searched for, created, set and returned for every row with the text', "other", 'patterns of one node or one relationship, up to two actions, one row at the top and two rows in between, 0 to 2 matches or a failing search per row, every way its variables are bound and the actions name them; the graph package is assumed to find what its interface says'),
"G06": ('abstract interpretation of builder and evaluator of MATCH with modelled searches, comparing what is searched for, the environments of the condition and the rows of the result with the combinations of matches', "other", 'patterns of up to three parts with every way their variables coincide and are bound, 0 to 2 matches or a failing search per part, every sequence of outcomes of the condition; the graph package is assumed to find what its interface says'),
"G03": ('abstract interpretation of builder and evaluator of whole queries with modelled searches, comparing the log of evaluations, graph changes and result rows with what the clauses say', "other", '43 queries of up to four clauses, 0 to 2 matches per search, bound and unbound variables, failures at every expression; the graph package is assumed to find and do what its interface says'),
"Q01": ('abstract interpretation of builder and evaluator of whole queries with modelled searches, comparing the log of evaluations, graph changes and result rows with what the clauses say', "other", 'queries of up to two clauses with one to three items, every mix of alias and position, 0 to 4 rows; RETURN * is not covered'),
"Q02": ('abstract interpretation of builder and evaluator of whole queries with modelled searches, comparing the log of evaluations, graph changes and result rows with what the clauses say', "other", 'nine kinds of query, 0 to 4 rows, every pair of counts out of none, 0, 1, 2, 3, 5 and of values that are no counts'),
"Q04": ('abstract interpretation of builder and evaluator of whole queries with modelled searches, comparing the log of evaluations, graph changes and result rows with what the clauses say', "other", "queries of up to three branches (UNION ALL) and up to three clauses, failing at every expression; which row's variables of a MATCH the caller sees afterwards is not fixed"),
"Q03": ('abstract interpretation of builder and evaluator of UNION for every way row values coincide, and of the sameness of values over pairs of kinds and contents, against the meaning of the text', "other", 'up to three branches with up to two rows and two columns; contents of up to two elements, nested once; NaN excluded'),
"G04": ('abstract interpretation of the tree builder and the evaluator of DELETE over all small graphs and lists of results, with the graph package taken as its interface', "other", 'up to two relationships over two nodes, and up to four values in up to three rows; the graph package is assumed to do what its interface says'),
"Q07": ('abstract interpretation of every tree builder over every grammar shape (each part of the text, and each optional keyword, must reach what is built), and an inventory over SSA of the fields of the parsed query (filled in by builders, and read by the evaluation or part of a construct that always fails)', "other", 'up to three repetitions of a repeated part; a field that one clause reads and another ignores is not seen; four known findings: ORDER BY, RETURN DISTINCT, OPTIONAL MATCH, and DISTINCT in a function call'),
"Q08": ('abstract interpretation of tree builders and evaluators for every token that can spell a name, with its text unknown, in every position of a name', "other", 'names in backticks are six samples here (A10 covers all of up to three characters); other tokens have any text'),
}
for p in PROPS:
    if p["id"] in CLAIMS:
        assert p["na"] is None, p["id"]
        p["claim"] = CLAIMS[p["id"]]
