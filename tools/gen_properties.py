import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
RENDER=["positional rendering: text and argument list","named rendering: text and argument map"]
ALL3=RENDER+["inlined (debug) rendering: text"]

p("P01","Bound values never influence the query text",
 "Replacing the bound values of a statement by any other values of the same Go types (same nil-ness, same list lengths) leaves the positional text and the named text byte for byte identical; only the returned arguments change. In particular no content of a value (quotes, comments, placeholders, control characters, any length) can appear in, or alter, the text sent to the database.",
 ["inputs","programs"],"every statement built with the public API, every pair of value assignments of the same types, including hostile strings, byte slices, extreme numbers, times, Valuers and encoders, at every position that accepts a value",
 "Tests compare fixed texts for a few benign values; non-interference quantifies over all pairs of values and all positions (comparison operands, lists, ranges, SET, VALUES, upsert, CTE, subquery, call arguments).",
 ["stmt/expression.go","types/context.go","stmt/set.go","stmt/values.go"],
 [("values are written through the context's bind, never through its write","stmt/expression.go Value.Write"),("placeholders are derived from the argument count only","types/context.go")],
 observe=RENDER)
p("P02","Placeholders and arguments correspond one to one, in order",
 "The positional text contains $1..$n exactly once each, in increasing order, and returns exactly n arguments; the named text contains :arg_1..:arg_n likewise, with exactly those n names in its map. The k-th placeholder in the text stands at the place where the user supplied the k-th value, and the k-th argument is that value, with its Go type, whatever the number of values (one to tens of thousands), their equality, and the nesting of lists, subqueries and CTEs.",
 ["inputs","programs"],"every statement of the public API with any number of values, including equal values, several thousands of values and deeply nested subqueries",
 "Tests cover hand written statements with at most a dozen distinct values; numbering and alignment errors appear with repeated values, two digit (or larger) indexes, nested statements or unusual clause combinations.",
 ["types/context.go","stmt/expression.go","stmt/select.go","stmt/insert.go","stmt/update.go","stmt/delete.go"],
 [("one context shared by the whole statement numbers placeholders when values are bound","types/context.go StdContext.Bind, NamedContext.Bind"),("clauses are written in textual order","stmt/*.go Write")],
 state=[("values","arguments bound so far","types/context.go")],observe=RENDER)
p("P03","Positional, named and inlined renderings of a builder agree",
 "Positional and named renderings of the same builder differ only by the spelling of the placeholders ($k against :arg_k) and carry the same arguments. The inlined rendering is that same text where each placeholder is replaced by the literal of its argument.",
 ["inputs","programs"],"every builder (select, insert, update, delete) and every value it carries",
 "Tests check three literals per scenario, each written by hand; agreement has to hold for every statement.",
 ["builder/select.go","builder/insert.go","builder/update.go","builder/delete.go","types/context.go","format/format.go"],
 [("the three renderings write the same statement to three contexts","builder/*.go String, NamedQuery, Query"),("one context per notation","types/context.go")],observe=ALL3)
p("P04","Any table, column or alias name stays exactly one identifier",
 "Each dot separated part of a table or column name, and each alias of a table or column as a whole, is rendered as one delimited identifier which denotes exactly the given characters for PostgreSQL, whatever they are (double quotes, backslashes, spaces, line breaks, keywords, placeholders, comment marks, any case, any Unicode text). No name can end its identifier or change anything else in the statement; only * (as a column, alone or after a table) is left undelimited.",
 ["inputs"],"every name made of non empty parts without surrounding blanks (valid UTF-8, no NUL), at every position that takes a table, column or table or column alias name (aliases of aggregates are trusted fragments): select list, from, join, on, conditions, group by, distinct on, insert columns, set, conflict target, using, returning",
 "Tests only use lowercase ASCII names; the guarantee quantifies over all characters and all positions.",
 ["stmt/stmt.go","stmt/column.go","stmt/table.go","stmt/expression.go"],
 [("names are split on dots and every part is delimited with its double quotes doubled","stmt/stmt.go quote, quoteIdentifier"),("every identifier position uses it","stmt/column.go, stmt/table.go, stmt/expression.go Identifier.Write")],observe=ALL3)
p("P05","The same logical query always renders to the same text",
 "Building the same logical query again, in this process or another, always yields the same text and the same arguments in the same order, in every rendering. In particular it does not depend on the iteration order of maps, on the order in which pairs of a SET, INSERT or upsert are given, or on what was built or rendered before.",
 ["inputs","histories"],"every query, every insertion order and representation (map, pairs) of its column/value pairs, every number of repetitions (a map naming one column with several keys has no meaning and is rejected)",
 "Map iteration order is random: a test passes or fails by luck on the few maps it has; the property is about all repetitions and insertion orders.",
 ["stmt/set.go","builder/builder.go"],[("pairs are sorted by column before they are written","stmt/set.go PairContainer.Values")],observe=ALL3)
p("P06","Rendering is read-only, repeatable and its results are independent",
 "Rendering a builder any number of times, with any mix of its renderings and interleaved with other builders, always returns the same results, and leaves the builder and every expression it is made of unchanged. A returned text, argument list or argument map never changes afterwards, and modifying a returned list or map has no effect on later renderings.",
 ["histories","programs"],"every history of renderings (and of modifications of returned arguments) interleaved over several builders sharing expressions",
 "Each test renders a fresh builder once per notation; hidden state (in-place sorting, caches, pooled buffers) only shows in longer histories.",
 ["builder/select.go","builder/insert.go","builder/update.go","builder/delete.go","types/context.go","stmt/set.go"],
 [("every rendering uses a new context","builder/*.go"),("statements are values written with value receivers","stmt/*.go Write")],observe=ALL3)
p("P07","Deriving a builder never affects the original nor its siblings",
 "Every builder call returns a new builder and leaves its receiver as it was: any number of builders can be derived from the same one, in any order and at any depth, and each renders exactly as if its own chain of calls had been applied alone to a new builder. The same holds for expressions (conditions, columns, tables, aggregates) reused in several places.",
 ["histories","programs"],"every tree of derivations of select, insert, update and delete builders, at every length of every repeatable clause (joins, order by, CTEs, pairs, conditions)",
 "Tests build linear chains; sharing only shows when two branches extend the same builder at lengths where a backing array has spare capacity, or share a map.",
 ["builder/select.go","builder/update.go","builder/insert.go","builder/delete.go","builder/builder.go","stmt/set.go"],
 [("builders have value receivers and copy what they extend","builder/*.go, stmt/set.go PairContainer.Clone")],
 state=[("query","statement under construction, copied by every call","builder/*.go")],observe=ALL3)
p("P08","Containers given by the caller are neither modified nor retained",
 "No call or rendering modifies a slice or map given by the caller to a builder or an expression (lists of values, of rows, of columns, of CTEs or orders, maps of pairs). Once a call has returned, the caller can modify such a list or map of its own without any effect on the statement.",
 ["inputs","histories"],"every list or map parameter of the public API and every later modification of the list or map itself (values which are bound as a single argument, such as a byte slice or an array column, are the caller's)",
 "No test modifies its inputs after the call, or checks them after a rendering.",
 ["builder/builder.go","builder/select.go","builder/update.go","stmt/expression.go"],
 [("lists are copied element by element","builder/builder.go To*, stmt/expression.go toArray, toArrayList, NewCall")],observe=ALL3+["the caller's containers"])
p("P09","Builders and expressions can be shared by goroutines without races",
 "Any number of goroutines can concurrently render, and derive other builders from, the same builder, and reuse the same expressions, without any data race. Each of them obtains exactly what it would have obtained alone.",
 ["schedules"],"every interleaving of renderings and derivations by several goroutines sharing select, insert, update and delete builders, CTEs, conditions, upsert actions, and of concurrent textual join parsing",
 "The existing tests never start a goroutine nor use the race detector on shared builders.",
 ["stmt/set.go","types/context.go","builder/builder.go","builder/select.go","lexer/lexer.go","parser/join.go","token/token.go"],
 [("builders are immutable values; rendering state lives in a context per call","builder/*.go, types/context.go"),("keywords are read-only","token/token.go")],observe=["race detector reports","results of every goroutine"])
p("P10","Conditions keep their boolean and comparison structure",
 "Read with PostgreSQL's precedence rules, the rendered condition has exactly the structure of the calls that built it: which operands are joined by AND and by OR and how they are grouped, for conditions chained on builders as well as on expressions, and for each comparison its operator, its left and right operands, the bounds of a range and the elements of a list in order. This holds in WHERE, HAVING and join conditions.",
 ["inputs","programs"],"every tree of comparisons (=, !=, <, <=, >, >=, IS, IS NOT, [NOT] IN, [NOT] LIKE, [NOT] ILIKE, [NOT] BETWEEN, IS [NOT] DISTINCT FROM, @>, <@, &&, EXISTS, NOT EXISTS) with identifiers, values, calls, raw expressions or subqueries as operands",
 "Tests cover a few shallow trees; grouping mistakes depend on the shape of the tree and on which side is compound.",
 ["stmt/infix.go","stmt/in.go","stmt/between.go","stmt/where.go","stmt/having.go","stmt/on.go","stmt/operator.go","types/operator.go","stmt/expression.go"],
 [("every compound expression encloses itself between parentheses","stmt/infix.go, stmt/in.go, stmt/between.go, stmt/on.go"),("builder chains fold to the left","stmt/where.go And, Or")],observe=ALL3)
p("P11","SELECT renders each requested clause once, complete and in order",
 "A select contains exactly the clauses that were requested, each once, in the order of PostgreSQL's grammar (prefix, WITH, DISTINCT or DISTINCT ON, select list, FROM, JOINs, WHERE, GROUP BY, HAVING, ORDER BY, LIMIT, OFFSET, suffix, comment), each with exactly its given elements in the given order with their aliases, functions, directions and join types. Nothing else is in the text, and any combination of clauses is accepted by PostgreSQL's grammar.",
 ["inputs","programs"],"every combination of clauses and every number of elements per clause",
 "Tests exercise one or two clauses at a time; 2^15 combinations and arbitrary lists are out of their reach.",
 ["builder/select.go","stmt/select.go","stmt/distinct_on.go","stmt/groupby.go","stmt/order.go","stmt/orderby.go","stmt/join.go","stmt/aggregate.go","stmt/with.go","stmt/from.go"],
 [("clauses are written in a fixed order when they are defined","stmt/select.go writeHead, writeMiddle, writeTail")],observe=ALL3)
p("P12","INSERT renders target, columns, values, conflict and returning exactly",
 "An insert contains exactly its target table, its columns in order, its rows, its conflict target columns and action (nothing, or an update with its pairs) and its returned expressions, each once and in the order of PostgreSQL's grammar, and nothing else. A requested conflict clause is never dropped, altered or completed with another action.",
 ["inputs","programs"],"every combination of columns, values or pairs, conflict target and action, returned expressions and comment (assigned and target columns given without alias)",
 "Tests exercise fixed statements; conflict targets, actions and returning are rarely combined with each other and with rows of other shapes.",
 ["builder/insert.go","stmt/insert.go","stmt/conflict.go","stmt/into.go","stmt/values.go","stmt/returning.go"],
 [("clauses are written in a fixed order when they are defined","stmt/insert.go Write"),("conflict action guards","builder/insert.go OnConflict")],observe=ALL3)
p("P13","UPDATE renders target, assignments, source, condition exactly",
 "An update contains exactly its CTEs, ONLY when requested, its target table, its assignments (pairs, or a column list with its expressions or subquery in order), its FROM source, its condition and its returned expressions, each once and in the order of PostgreSQL's grammar, and nothing else.",
 ["inputs","programs"],"every combination of clauses, both SET syntaxes, any number of calls and pairs (assigned columns given without alias)",
 "Tests exercise one clause at a time with a handful of pairs.",
 ["builder/update.go","stmt/update.go","stmt/set.go","stmt/from.go","stmt/with.go","stmt/returning.go"],
 [("clauses are written in a fixed order when they are defined","stmt/update.go Write")],observe=ALL3)
p("P14","DELETE renders target, using, condition and returning exactly",
 "A delete contains exactly its target tables (with ONLY and alias when requested), its USING tables in order, its condition and its returned expressions, each once and in the order of PostgreSQL's grammar, and nothing else.",
 ["inputs","programs"],"every combination of clauses and tables",
 "Tests exercise fixed statements, mostly one clause at a time.",
 ["builder/delete.go","stmt/delete.go","stmt/using.go","stmt/from.go","stmt/returning.go"],
 [("clauses are written in a fixed order when they are defined","stmt/delete.go Write")],observe=ALL3)
p("P15","An undefined condition never silently widens a statement",
 "Once a condition has been given to a select, update or delete (WHERE, AND, OR, HAVING) or to a join, the statement either renders with that condition and all the previous ones, or is rejected with a panic or an error. A nil, empty or incomplete part anywhere in a condition (nil operand, empty identifier, empty raw text, subquery without columns) never makes a condition, or a clause, disappear from the text (an undefined element of a list or of a call's arguments may be written as it is: its condition stays).",
 ["inputs","programs"],"every condition tree with an undefined part at any position, at any step of a chain of conditions",
 "Tests have no undefined condition beyond a nil on a select; the danger is in the combination of a defined condition with an undefined part deep in the tree.",
 ["stmt/where.go","stmt/having.go","stmt/infix.go","stmt/in.go","stmt/between.go","stmt/on.go","stmt/join.go","builder/select.go","builder/update.go","builder/delete.go"],
 [("conditions are checked when they are added","stmt/where.go, stmt/having.go"),("incomplete expressions are rejected when they are written","stmt/infix.go, stmt/in.go, stmt/between.go Write")],observe=ALL3)
p("P16","In SET clauses the last write wins and columns keep their own value",
 "For any sequence of pairs and maps given, in one or several calls, to an update, an insert or an upsert, the statement assigns each distinct column exactly once, to the value (or expression) given last for it, and to no other column's value. Pairs are written in the order of column names.",
 ["inputs","histories"],"every sequence of pairs and maps over repeated columns (without alias), spelled as text or column, with values, NULL, raw expressions and subqueries",
 "Tests overwrite one column once; permutations and repeated overwriting over many columns are not covered.",
 ["stmt/set.go","builder/builder.go","builder/update.go","builder/insert.go","loukoum.go"],
 [("a map keyed by column with the list of columns in order of first use","stmt/set.go PairContainer.Add"),("columns and expressions are sorted together","stmt/set.go PairContainer.Values")],
 state=[("pairs","column to expression association","stmt/set.go PairContainer")],observe=ALL3)
p("P17","Inserted rows keep their number, order and every element",
 "For every supported way of giving the values of an insert (arguments, a typed slice, a slice of rows), the VALUES clause has exactly one row per given row, in order, and each row has exactly the given elements in order, NULL included. Neither the number of rows or elements nor their type or value changes that.",
 ["inputs"],"every supported slice type, zero or more elements, any mix of NULL, raw expressions, subqueries, values and array values; one to thousands of rows",
 "Tests cover two slice types with two rows of three strings.",
 ["stmt/expression.go","stmt/values.go","builder/insert.go"],
 [("one expression per element","stmt/expression.go NewArrayListExpression, toArrayList, toArray")],observe=ALL3)
p("P18","A Go value is bound unmodified, is NULL, or is rejected",
 "Every supported Go value (booleans, all integer and float types, strings, byte slices, times, maps and arrays of the supported types, database Valuers, pgx ranges and arrays) is bound as it is, with its value and type, at every position of the API; nil is NULL; encoders contribute the value they encode (a type with several encodings, the first of: statement, integer, boolean, time, text); builders and expressions are embedded. A value of any other type is rejected with a panic, at every position: it is never converted, truncated, dropped or written in the text.",
 ["inputs"],"every supported and unsupported Go type, boundary values of each, typed nils, at every position that takes a value, alone or in lists and rows",
 "Tests bind a few types at a few positions; the type switch is duplicated per position and per slice type.",
 ["stmt/expression.go","stmt/encoder.go","builder/builder.go"],
 [("type switch from values to expressions","stmt/expression.go NewExpression"),("type switches from slices to lists","stmt/expression.go toArray, toArrayList")],observe=["arguments of the positional and named renderings"])
p("P19","A textual join means what it says, or is rejected",
 "A join given as text (with or without its JOIN keyword, table, parentheses or final semicolon, in any case and layout) produces the same clause as the same join given with structured arguments: same join type, table and conditions, joined by AND and OR from left to right. On any other text the parser returns an error, or a join containing every table, condition and connector of the text in order: it never crashes or hangs, and never drops, replaces or reorders a condition.",
 ["inputs"],"every text: any number of conditions, any layout, case and parenthesization; truncations, token insertions, deletions, duplications and arbitrary bytes",
 "Tests parse nine texts.",
 ["parser/join.go","lexer/lexer.go","lexer/iteratee.go","token/token.go","builder/select.go","stmt/join.go"],
 [("recursive parsing over the tokens","parser/join.go ParseJoin"),("unexpected tokens are rejected","parser/join.go ParseJoin")],observe=["parsed join, error","rendered JOIN clause"])
p("P20","Tokenizing is total, loses nothing, and ignores case and layout",
 "For every input the tokenizer ends, and every character other than blanks belongs to exactly one token, in order: concatenating the token values gives back the input without its blanks. A word is a keyword if and only if it is one in any letter case, and blanks around tokens never change the sequence of tokens.",
 ["inputs"],"every valid UTF-8 text, including control characters, NUL, non ASCII text, very long words and inputs larger than any internal buffer (blanks are spaces, tabs, carriage returns and line feeds)",
 "Tests tokenize seven well formed texts.",
 ["lexer/lexer.go","lexer/iteratee.go","token/token.go"],
 [("two runes lookahead over a buffered reader","lexer/lexer.go read"),("keyword table","token/token.go Lookup")],observe=["sequence of tokens"])
p("P21","Clause calls commute and a clause cannot be defined twice",
 "Calls defining different clauses of a builder can be made in any order: the resulting statement is the same, and no order is rejected. Defining again a clause that can only be defined once (from, group by, having, limit, offset, distinct on, prefix, suffix, the target, columns and values of an insert, conflict, the using clause of a delete, returning) is rejected with a panic, whatever the other clauses are, instead of silently replacing or extending the first definition.",
 ["programs","histories"],"every permutation of the calls on a builder, every pair of calls defining the same clause with any other clauses in between (an offset of zero defines nothing)",
 "Tests make calls in one order, and define twice only some of the clauses.",
 ["builder/select.go","builder/insert.go","builder/update.go","builder/delete.go"],
 [("each clause has its own field and a guard on that field","builder/*.go")],observe=ALL3+["panics"])
p("P22","An inlined literal denotes exactly its value",
 "In the inlined rendering, the literal of a string, byte slice, integer, finite float, boolean, time or NULL is a single PostgreSQL literal (or call decoding one) that denotes exactly the given value, at microsecond precision for times, whatever characters or bytes it contains. A Valuer is rendered as the value it provides.",
 ["inputs"],"every valid UTF-8 string without NUL, every byte slice, every integer of every type, every finite float, every time of years 1 to 9999 in any zone, and Valuers of those",
 "Tests inline a few benign strings and numbers and no string with quotes, backslashes or control characters.",
 ["format/format.go","types/context.go"],
 [("one formatter per type","format/format.go"),("escape string constants","format/format.go String")],observe=["inlined rendering"])
p("P23","LIMIT and OFFSET carry exactly the given integer, or it is rejected",
 "LIMIT is rendered with exactly the given number for every positive integer of any integer type, decimal text or limit statement, and OFFSET likewise for every non negative one (an offset of zero may be omitted). Every other value (zero or negative limit, negative offset, number that does not fit, malformed text, other type) is rejected with a panic: a limit is never dropped, wrapped or rounded.",
 ["inputs"],"every integer type at its boundaries, every text, other types",
 "Tests use a few small constants per type.",
 ["builder/builder.go","builder/select.go","stmt/limit.go","stmt/offset.go"],
 [("conversion to a 64 bits integer with bounds","builder/builder.go ToInt64, ToLimit, ToOffset")],observe=ALL3+["panics"])
p("P24","Subqueries and CTEs embed unchanged at any depth",
 "A select used as a subquery (comparison, IN, EXISTS, select list, SET, VALUES, function argument, CTE) appears exactly as it renders alone, apart from its placeholders being renumbered (and its comment removed), enclosed in its own parentheses, and its arguments are exactly its own, in sequence with the surrounding ones. It changes nothing around it; CTEs keep their names and order.",
 ["programs","inputs"],"every select at every subquery position, nested to any depth, the same one used several times, together with values before and after it",
 "Tests nest one level, at a few positions, mostly without arguments around.",
 ["stmt/expression.go","stmt/subquery.go","stmt/with.go","stmt/in.go","stmt/set.go","builder/select.go"],
 [("a wrapper encloses subqueries between parentheses","stmt/expression.go NewWrapper"),("the same context is used for the whole statement","stmt/*.go Write")],observe=ALL3)
p("P25","A comment never changes the statement",
 "Adding a comment with any text to a builder yields the same statement and arguments, followed by one comment line: whatever the comment contains, nothing of it is outside of that comment. The comment of a subquery never hides a part of the enclosing statement.",
 ["inputs","programs"],"every comment text (line breaks of any kind, quotes, comment marks, semicolons, placeholders) on every kind of statement and on subqueries",
 "Tests use the single comment \"/foo\" on top-level statements.",
 ["stmt/comment.go","stmt/select.go","stmt/insert.go","stmt/update.go","stmt/delete.go","stmt/expression.go"],
 [("a comment is written last, on one line","stmt/comment.go, stmt/*.go Write"),("the comment of a subquery is removed","stmt/expression.go withoutComment")],observe=ALL3)
p("P26","A custom context observes the same statement as the renderings",
 "Writing the statement of a builder to a user supplied context produces a sequence of writes and binds such that the texts, with a placeholder for each bind, concatenate to the text of the builder's renderings, and the bound values are exactly its arguments, in order. This holds for the statement of every builder, as many times as it is written.",
 ["programs","inputs"],"every builder, every context implementation, any number of writings",
 "No test supplies its own context.",
 ["types/context.go","stmt/stmt.go","builder/select.go","builder/insert.go","builder/update.go","builder/delete.go"],
 [("statements only know the context interface","types/context.go Context")],observe=["writes and binds received by a recording context"])
p("P27","A rejected call leaves every builder intact",
 "When a call on a builder panics, because of any of its arguments, the builder it was made on (and every builder it shares a history with) still renders exactly as before, and the same call with valid arguments then succeeds as if the rejected call had never been made. A rendering that panics does not disturb later renderings of any builder.",
 ["fault_sequences","histories"],"every history of valid calls with rejected ones injected at any point, including calls whose last argument only is invalid",
 "Tests check that some calls panic and never look at the builder afterwards.",
 ["builder/builder.go","builder/select.go","builder/insert.go","builder/update.go","builder/delete.go","stmt/set.go"],
 [("calls work on a copy of the builder","builder/*.go, builder/builder.go MergeSet")],observe=ALL3+["panics"])
p("P28","Trusted fragments are emitted verbatim, once, and in place",
 "Raw expressions, ORDER BY expressions, aggregate and call names and arguments, aliases of aggregates, CTE names, prefixes and suffixes are emitted character for character, exactly once per use and at their place, in every rendering; they never produce an argument and are never quoted, trimmed, escaped, numbered or reformatted.",
 ["inputs"],"every text, including quotes, percent signs, question marks, placeholders, backslashes and line breaks, at every position taking a trusted fragment",
 "Tests use a few texts such as NOW() and COUNT(*).",
 ["stmt/expression.go","stmt/order.go","stmt/aggregate.go","stmt/prefix.go","stmt/suffix.go","stmt/with.go"],
 [("written to the context as they are","stmt/expression.go Raw.Write, stmt/order.go, stmt/aggregate.go, stmt/prefix.go, stmt/suffix.go, stmt/with.go")],observe=ALL3)
p("P29","Equivalent spellings of an argument give the same statement",
 "All documented ways of giving the same thing produce the same statement with the same arguments: columns as separate texts, one comma separated text, a slice of texts or column statements; tables as text or statement; pairs or maps; values as arguments or as one slice; limits as any integer type or text; subqueries as builders or as their statements; joins as text or structured.",
 ["inputs","programs"],"every statement and every choice of spelling at each of its positions",
 "Tests compare the spellings on a handful of fixed statements.",
 ["builder/builder.go","builder/select.go","builder/insert.go","builder/update.go","builder/delete.go","stmt/expression.go","loukoum.go"],
 [("conversions to the same statement types","builder/builder.go To*")],observe=ALL3)
p("P30","Builder kind predicates recognize exactly their own kind",
 "For every builder, given as a value or as a pointer, at any stage of its construction, exactly one of the select, insert, update and delete predicates is true: the one of its kind. Its statement has that same kind.",
 ["inputs","programs"],"every builder of every kind, empty or not, by value or by pointer",
 "No test calls the predicates.",
 ["builder/builder.go"],[("type switches","builder/builder.go Is*Builder")],observe=["predicates"])
p("P31","Misuse is rejected with a message, never with a runtime fault",
 "Any sequence of builder calls with arguments of any type and content either succeeds or panics with a descriptive message; it never ends in a Go runtime fault (nil dereference, index out of range, failed type assertion, stack or memory exhaustion) or in an endless loop. A builder made of calls that all succeeded renders, or is rejected with such a message.",
 ["inputs","programs"],"every sequence of public builder calls with arguments drawn from all types: nil, typed nil slices, maps and pointers, empty and blank texts, wrong types, empty statements, extreme numbers, wrong argument counts (zero values of composite statements written by hand, user types whose own methods fault and values containing themselves are the user's responsibility)",
 "Tests check that a few misuses panic, whatever the panic is.",
 ["builder/builder.go","builder/select.go","builder/insert.go","builder/update.go","builder/delete.go","stmt/expression.go","stmt/join.go","parser/join.go"],
 [("argument checks with panics","builder/*.go, stmt/*.go")],observe=["panic values"])
p("P32","A given element is in the statement or rejected, never ignored",
 "Every element which a call gives to a clause (selected or returned column or expression, grouping column, table, pair or map entry, order, WITH query, conflict target, join part, prefix or suffix) is in the statement, once and in the given order, however many elements of whatever supported types the list has. An undefined element (nil, nil pointer, empty or blank name, empty text between two commas, empty column, table, order, from clause, aggregate or fragment, also as the alias of nothing) or one of a type which the clause does not support makes the call panic with a message, whatever its place in the list and whatever is around it: it is never dropped, and never written as a hole.",
 ["inputs","programs"],"every list of elements of every clause, of mixed supported types, with an undefined or unsupported one at any place or without (a fragment or value given where any SQL expression is accepted is written as it is; empty slices and maps hold no element; a select's Columns called again defines the list anew)",
 "Tests check a few undefined arguments alone; dropping an element changes what a statement selects, writes or locks without any error.",
 ["builder/builder.go","builder/select.go","builder/insert.go","builder/update.go","builder/delete.go","stmt/conflict.go","stmt/order.go","stmt/with.go"],
 [("conversions to statements","builder/builder.go To*, MergeSet")],observe=ALL3+["panic values"])
p("P33","A statement made by hand renders as the builder's one",
 "A statement assembled without a builder from the parts and constructors of the stmt package (clauses, conditions joined with And and Or, joins, WITH queries, SET pairs or lists, conflict actions, rows), its parts given in any order, and written to the contexts of the types package, gives the same statement with the same arguments as the builder with the same content. Each context keeps exactly what was written and bound to it, in order, with one placeholder per bound value ($n, :arg_n, or the literal), whatever other contexts are used meanwhile. Columns and expressions of a SET clause are refused in the wrong mode, and never mixed up. A clause or statement reports to be empty if and only if nothing was given to it, and a part that is not empty is written.",
 ["programs","histories"],"every statement of every kind, every order of assembly, any sequence of writes and binds on any number of contexts, any sequence of calls on a container of pairs",
 "Tests only go through the builders; the packages below them are exported, documented as the minimum unit constituting SQL, and are what a caller uses for statements the builders do not offer.",
 ["stmt/stmt.go","stmt/select.go","stmt/insert.go","stmt/update.go","stmt/delete.go","stmt/set.go","stmt/where.go","stmt/having.go","types/context.go"],
 [("statements and clauses","stmt/*.go"),("contexts","types/context.go")],observe=["texts and arguments of the contexts","IsEmpty of every part","panic values"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
