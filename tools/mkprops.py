import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
Q='sqlpuzzle/_queries/'; QP='sqlpuzzle/_queryparts/'; CM='sqlpuzzle/_common/'; BE='sqlpuzzle/_backends/'
p('C01','Unconditional UPDATE and DELETE are refused unless explicitly allowed',
 "Rendering an UPDATE or DELETE query that holds no WHERE condition raises ConfirmUpdateAllException / ConfirmDeleteAllException (both ConfirmException) unless the most recent allow_*_all()/forbid_*_all() call on that very query was the allow. A query that holds a condition always renders. This holds after every sequence of other builder calls, for copies (which inherit the permission), and for calls to where() that contribute no condition (no arguments, an empty dict or list, an empty Q()).",
 ['histories','inputs'],'every sequence of public builder calls, copies and renders on Update and Delete, with arguments of every accepted shape',
 'Tests render a handful of fixed chains; none covers the absence of a condition after other builder calls, forbid after allow, copies, joins, options or empty where() arguments.',
 [Q+'delete.py',Q+'update.py',QP+'conditions.py',QP+'queryparts.py','sqlpuzzle/exceptions.py'],
 [('guard before template rendering',Q+'delete.py Delete.__str__, '+Q+'update.py Update.__str__'),('condition container emptiness',QP+'queryparts.py QueryParts.is_set')],
 ['str(query)','repr(query)','query.tosql()'],
 [('allow flag','whether a statement without WHERE may be rendered',Q+'delete.py, '+Q+'update.py')])
p('C02','String values always become escaped literals and cannot break out',
 "Whatever string a caller supplies where a value is expected (where/having/on values through any relation, set(), insert values(), V(), elements of lists, tuples, sets, generators, GROUP_CONCAT separator, INTO OUTFILE name and terminators), the rendered text is a single-quoted literal in which every backslash, single quote and newline is escaped (\\\\ , '' , \\n) and every other character is unchanged. The only exception is a string that, after trimming, is written as an identifier quoted with the configured backend's quote character (optionally followed by one or two dotted parts), which is rendered as a reference. A value of a type the library does not know is rejected, never pasted into the text.",
 ['inputs','configurations'],'every string content, every value sink of the API, every backend',
 'Tests try about five fixed strings on the default backend; the guarantee is over all strings, all sinks and all four backends.',
 [CM+'sqlvalue.py',BE+'sql.py',QP+'conditions.py',QP+'values.py',QP+'functions.py',QP+'intooutfile.py','sqlpuzzle/relations.py'],
 [('escaping of string literals',CM+'sqlvalue.py _escape_value/SqlValue._string'),('reference detection',BE+'sql.py SqlBackend.is_reference')],
 ['str(query)','str(V(x))'])
p('C03','Identifiers are always quoted and cannot break out of the quotes',
 "Every string a caller supplies as a column, table, alias, order/group column, function argument, ON CONFLICT target or R() is rendered as dot-separated parts, each wrapped in the configured backend's identifier quote (backtick for MySQL, double quote otherwise) with any quote character inside the part doubled; only a part that is exactly * stays bare. Dots split an identifier except inside a part the caller already quoted, and empty parts vanish. No string content can produce text outside the quotes.",
 ['inputs','configurations'],'every string content, every identifier position of the API, every backend',
 'Tests use a few benign names; none contains a quote character and only one sink per backend is covered.',
 [BE+'sql.py',BE+'mysql.py',CM+'sqlvalue.py',QP+'columns.py',QP+'tables.py',QP+'order.py',QP+'functions.py',QP+'values.py',QP+'onconflictdoupdate.py'],
 [('identifier quoting',BE+'sql.py SqlBackend.reference'),('reference wrapper used by all renderers',CM+'sqlvalue.py SqlReference')],
 ['str(query)','str(R(x))'])
p('C04','Non-string values render as the literal of their type for the backend',
 "Values render by type wherever a value is accepted: integers as decimal digits, floats and Decimals with exactly five decimals (a Decimal without passing through binary floating point), booleans as 1/0 (true/false on PostgreSQL) and never as plain integers there, bytes as x'hex' (E'\\\\\\\\xhex' on PostgreSQL), dates and datetimes as quoted ISO 8601, None as NULL, lists, tuples, sets, ranges and generators as a parenthesised comma-separated list of their rendered elements. An empty collection is rejected with InvalidArgumentException. C() text is inserted verbatim (only the statement as a whole is trimmed) and a V()/R() object renders the same wherever it is embedded.",
 ['inputs','configurations'],'every value of every supported type, nested to any place a value is accepted, on every backend',
 'Tests render one sample per type on one backend; type dispatch order (bool/int, date/datetime) and zero/falsy values are not covered.',
 [CM+'sqlvalue.py',BE+'sql.py',BE+'postgresql.py'],
 [('type dispatch table',CM+'sqlvalue.py SqlValue'),('backend literals',BE+'sql.py boolean/bytes, '+BE+'postgresql.py')],
 ['str(V(x))','str(query)'])
p('C05','Conditions render the requested relation; wrong operand types are refused',
 "A condition renders as column, operator, value, where the operator is exactly the one of the relation used (EQ =, NE !=, GT >, GE >=, LT <, LE <=, LIKE, NOT LIKE, REGEXP, IN, NOT IN, IS, IS NOT), in where, having and on alike. A bare value picks = for scalars, IN for list/tuple/range/generator and IS for None (also when wrapped in V()). Each relation accepts only its operand types (any SQL object is always accepted; booleans only for =, !=, IS, IS NOT; IN and NOT IN take any iterable, or several arguments, as the list of its elements) and otherwise raises InvalidArgumentException at construction.",
 ['inputs'],'every relation, every operand type, every column and value, in every condition clause',
 'Tests check one operand per relation and a few refusals; the type x relation x clause matrix is open.',
 ['sqlpuzzle/relations.py',QP+'conditions.py',QP+'having.py',QP+'tables.py'],
 [('operator tables and operand type admission','sqlpuzzle/relations.py _RelationValue and subclasses'),('default relation by value type',QP+'conditions.py Condition')],
 ['str(query)','construction of relations'])
p('C06','IN and NOT IN treat None in the list as a NULL test and keep the rest',
 "IN over a list containing None renders (col IN (others) OR col IS NULL), NOT IN renders (col NOT IN (others) AND col IS NOT NULL); if None is the only element just the NULL test remains. Without None the plain list renders. Every other element, including falsy ones (0, empty string, False), is kept, in order, and repeated rendering gives the same text even when the caller passed a generator.",
 ['inputs'],'every list content and length, both relations, every way of passing the elements (list, tuple, range, generator, several arguments)',
 'Tests use [0,1,2,None] and [None]; element types, positions and counts are unbounded.',
 ['sqlpuzzle/relations.py'],[('NULL split of the operand list','sqlpuzzle/relations.py IN._format_condition, NOT_IN._format_condition')],['str(query)'])
p('C07','Rendered conditions keep the boolean structure the caller built',
 "Conditions added to one clause are joined by AND in the order they were added; a & b and a | b render as one parenthesised group with the right operator between the operands in order, and an operand holding several conditions is itself parenthesised, so precedence can never regroup them, at any nesting depth. Not(...) renders NOT(...) around its whole argument and raises InvalidArgumentException when it holds no condition, exists(...) renders EXISTS(...) around the subquery. Combining with something that is not a condition raises TypeError.",
 ['inputs','programs'],'every expression tree built from Q, &, |, Not, exists and every mixture with where/having/on calls',
 'Tests check about ten fixed trees.',
 [QP+'conditions.py',QP+'where.py',QP+'functions.py',QP+'queryparts.py'],
 [('grouping of combined conditions',QP+'conditions.py ConditionsOfConditions'),('AND separator',QP+'conditions.py Conditions')],['str(query)'])
p('C08','Nothing the caller supplied is silently dropped',
 "Every column, table, condition, assignment, row value, ordering and join passed to a builder call, in any mix of positional arguments, tuples, lists, one dict and keyword arguments that the call accepts, appears in the rendered text (except exact duplicates); a call that cannot represent an argument raises instead of ignoring it (None or an empty string as a table name means no table). In particular falsy values (0, empty string, False, None as a value) are kept, and keyword arguments given next to a dict or next to Q objects are kept. A tuple with too few or too many items is refused with InvalidArgumentException.",
 ['inputs'],'every argument shape and count accepted by columns, from_, where, having, on, set, values, group_by, order_by, join',
 'Tests pass a few shapes separately; the mixtures (dict plus keywords, Q plus keywords, short tuples) are not covered.',
 [CM+'argsparser.py',QP+'conditions.py',QP+'columns.py',QP+'tables.py',QP+'values.py',QP+'order.py'],
 [('argument folding',CM+'argsparser.py parse_args'),('per-clause append',QP+'*.py')],['str(query)','exceptions of builder calls'])
p('C09','Argument forms are equivalent and the text order is deterministic',
 "The same pairs given as keyword arguments, as a dict, as a list/tuple of pairs, or by repeated calls produce the same rendered parts. Positional arguments keep the caller's order; dict and keyword arguments come out sorted by key, independent of insertion order and hash seed; an OrderedDict keeps its own order. Text never depends on set or hash order of the library's own containers.",
 ['inputs','configurations'],'every set of keys and values, every insertion order and hash seed, every clause accepting pairs',
 'Tests fix one or two keys in one order; permutations and seeds are not explored.',
 [CM+'argsparser.py',QP+'values.py',Q+'options.py'],
 [('sorting of dict items',CM+'argsparser.py Parser'),('sorted column header',QP+'values.py MultipleValues.all_columns')],['str(query)'])
p('C10','Only exact duplicates are merged',
 "Adding a column, a table, or a column/value condition or assignment that is the same as one already present in that clause (same name, alias, operator and value of the same type) leaves the text unchanged; parts that differ in name, alias, operator, value or kind (a string versus a C/V/R object) are all kept, in the order added. Re-ordering by a column already present replaces its direction and keeps its position; different columns never affect each other.",
 ['inputs','histories'],'every pair and sequence of parts added to one clause',
 'Tests check one equal and one different pair per clause.',
 [QP+'queryparts.py',QP+'columns.py',QP+'tables.py',QP+'conditions.py',QP+'values.py',QP+'order.py'],
 [('membership test before append',QP+'queryparts.py append_unique_part/__contains__'),('part equality','__eq__ of Column, Table, Condition, Value')],['str(query)'])
p('C11','Joins render in order and merge only when equivalent',
 "Each join renders as its keyword (JOIN, LEFT JOIN, RIGHT JOIN, FULL JOIN), table with optional alias, and the AND of the on() conditions given since that join, attached to the last table added; strings in on() pairs are column references, everything else values. Joins of the same table and alias with the same conditions (a mirrored comparison counts as the same) collapse to one: to an inner JOIN if any of them is inner, otherwise only if all have the same type; any other joins are all kept (equivalent left and right joins, which are kept, are not required to stay apart). on() without a join, or join without a table, raises InvalidQueryException.",
 ['inputs','histories'],'every sequence of join/on calls with every table, alias, condition and type',
 'Tests cover a dozen fixed pairs of joins.',
 [QP+'tables.py'],[('join minimisation',QP+'tables.py Table'),('mirrored comparison equality',QP+'tables.py OnCondition')],['str(query)'])
p('C12','Rendering and inspecting a query never changes it',
 "str(), repr(), comparing, has() and copy() can be called any number of times at any point: rendering again gives the same text, and later builder calls and renders behave exactly as if the observation had not happened. The text always reflects the current state and the backend configured at render time (no stale result is reused).",
 ['histories','configurations'],'every history that interleaves observations with builder calls and backend switches',
 'Tests render once at the end; only one re-renders (a generator in IN).',
 [Q+'query.py',QP+'tables.py',CM+'sqlvalue.py','sqlpuzzle/relations.py'],
 [('rendering methods without side effects','every __str__/__eq__/has in the package')],['str(query) before and after observations'])
p('C13','Queries, copies and caller-owned objects are isolated from each other',
 "No builder call on one query changes the text of another query (other than one it was embedded in as a subquery), of a copy, or of a query created later; a copy renders identically at the time of copying and then evolves independently in both directions, for every clause and nested object. Containers and SQL objects (lists, dicts, tuples, Q, functions, subqueries) passed as arguments are never modified, and a list, set or dict given directly to a builder call or relation is read at the call: changing it afterwards does not change the query.",
 ['histories','inputs'],'every pair of queries and every history of builder calls on either',
 'Tests copy once and change one clause.',
 [CM+'object.py',Q+'query.py',Q+'options.py',QP+'queryparts.py',QP+'tables.py'],
 [('per-instance query parts',Q+'query.py Query.__init__'),('deep copy',CM+'object.py Object.copy')],['str() of both queries','the argument containers'])
p('C14','Clauses appear exactly when set, once, in SQL order',
 "Each statement renders its clauses in the fixed order of its SQL grammar (SELECT options, columns, FROM, WHERE, GROUP BY, HAVING, ORDER BY, LIMIT/OFFSET, INTO OUTFILE, FOR UPDATE; INSERT/REPLACE options INTO table (columns) VALUES rows, upsert; UPDATE options table SET values WHERE; DELETE options tables FROM references WHERE), separated by single spaces, each present if and only if the caller set it (columns default to *). A builder call affects only its own clause, whatever the order of calls, and returns the same query object so calls can be chained.",
 ['histories','inputs'],'every subset of clauses and every order of builder calls on Select, Insert, Update, Delete',
 'Tests set one or two clauses at a time in one order.',
 [Q+'query.py',Q+'select.py',Q+'insert.py',Q+'update.py',Q+'delete.py','sqlpuzzle/__init__.py'],
 [('statement templates','_query_template of each query'),('delegating builder methods',Q+'*.py')],['str(query)','return value of builder methods'])
p('C15','Option switches turn exactly one option on or off',
 "Each option method (sql_cache, sql_no_cache, all, distinct, distinctrow, sql_small_result, sql_big_result, sql_buffer_result, sql_calc_found_rows, straight_join, high_priority, for_update on SELECT; ignore on INSERT, UPDATE, DELETE) adds its keyword once when called with a true or no argument and removes it when called with a false one. sql_cache/sql_no_cache and all/distinct/distinctrow are mutually exclusive groups in which the last call wins; options of different groups do not affect each other and their order in the text does not depend on the order of calls.",
 ['histories','inputs'],'every sequence of option calls with every truth value',
 'Tests switch one option on or off at a time.',
 [Q+'selectoptions.py',Q+'options.py',Q+'insert.py',Q+'update.py',Q+'delete.py'],
 [('option tables and setters',Q+'selectoptions.py SelectOptions'),('option rendering',Q+'options.py Options')],['str(query)'])
p('C16','INSERT rows line up with the column header',
 "The header of a multi-row INSERT, whose columns are given as string names, lists each column used by any row exactly once, sorted; every row has exactly as many values as the header, the value under each column is the one that row gave for it, and columns a row did not give are NULL. Rows keep the order of the values() calls and identical rows are all kept; falsy values are kept as given.",
 ['inputs','histories'],'every number of rows with every subset of columns and values',
 'Tests use rows with one or two columns.',
 [QP+'values.py',Q+'insert.py'],[('common column order',QP+'values.py MultipleValues, Values.values')],['str(insert)'])
p('C17','Backend selection is exact and dialect features are never misapplied',
 "configure() accepts sql, mysql, postgresql and sqlite in any letter case, affects all later rendering, and on an unknown name raises without changing the active backend. FULL JOIN is accepted only on PostgreSQL; on_duplicate_key_update renders ON DUPLICATE KEY UPDATE on MySQL, ON CONFLICT (target) DO UPDATE on PostgreSQL (target required) and REPLACE on SQLite (no arguments allowed); a backend without the feature, a missing target on PostgreSQL, or any argument on SQLite raises InvalidQueryException instead of ignoring the request.",
 ['configurations','inputs'],'every backend, every configured sequence, every argument shape of the dialect-specific calls',
 'Tests cover one positive case per backend and FULL JOIN on the default one.',
 [BE+'__init__.py',BE+'sql.py',BE+'mysql.py',BE+'postgresql.py',BE+'sqlite.py',Q+'insert.py',QP+'tables.py',QP+'onconflictdoupdate.py',QP+'onduplicatekeyupdate.py'],
 [('backend registry',BE+'__init__.py'),('capability flags',BE+'*.py'),('capability checks',QP+'tables.py full_join, '+Q+'insert.py on_duplicate_key_update')],['str(query)','exceptions'])
p('C18','Equality agrees with rendering',
 "Two queries of the same kind that compare equal and both render give the same text up to mirrored join conditions and to values of one type that Python itself considers equal (0.0 and -0.0, one instant in two time zones), and a copy equals its original until one of them changes; a change to any clause, option or operand that changes the text makes them unequal. C(), V(), R() and functions compare equal to another SQL object or a string exactly when the texts are the same. Comparing with an unrelated object is False, never an error.",
 ['inputs','histories'],'every pair of queries differing in any one clause, option, operand or nothing',
 'Tests compare a query with its copy and after one change.',
 [Q+'query.py',Q+'options.py',Q+'union.py',Q+'selectoptions.py',QP+'*.py',CM+'object.py','sqlpuzzle/relations.py'],
 [('structural equality','__eq__ methods')],['==','!='])
p('C19','Misuse is reported by library exceptions only',
 "An argument of a type that a call does not accept (column, table, alias, order, condition column or value, assigned value, limit, offset, outfile text, union operand, relation operand, join operand, backend name) raises InvalidArgumentException or its subclass InvalidQueryException at the call or, for values inside collections, at rendering; every exception the library raises on purpose derives from SqlPuzzleException (except TypeError from combining conditions with non-conditions). Booleans are not accepted in place of integers or strings.",
 ['inputs'],'every builder call x every argument type',
 'Tests try int, float and bool in a few positions.',
 [CM+'utils.py',CM+'argsparser.py','sqlpuzzle/exceptions.py','sqlpuzzle/relations.py',QP+'*.py',BE+'__init__.py',Q+'insert.py',Q+'union.py'],
 [('type check decorator',CM+'utils.py check_type_decorator'),('exception hierarchy','sqlpuzzle/exceptions.py')],['exceptions of API calls'])
p('C20','LIMIT and OFFSET mean what was last set',
 "limit(n) renders LIMIT n for every integer n including 0; limit(n, m) also sets the offset; offset(m) renders OFFSET m and offset(0) or offset(None) removes it; limit(None) removes both. Setting one never changes the other otherwise, and LIMIT always precedes OFFSET, whatever the order of calls.",
 ['histories','inputs'],'every sequence of limit/offset calls with every integer',
 'Tests use six fixed sequences with positive numbers.',
 [QP+'limit.py',Q+'select.py'],[('limit state',QP+'limit.py Limit')],['str(select)'])
p('C21','SQL functions render their name and all arguments',
 "avg, count, max, min, sum (and their *_distinct forms), concat, group_concat and convert render NAME(arguments) with every argument a quoted reference or the SQL object given; DISTINCT appears exactly when last requested; count() without an expression is COUNT(*). group_concat renders ORDER BY then SEPARATOR exactly when set, the separator as an escaped literal; convert renders its target type in upper case; concat/group_concat keep all arguments in order and may not be empty.",
 ['inputs','histories'],'every function, every expression type and count, every sequence of distinct/order_by/separator/to calls',
 'Tests call each function with one column.',
 [QP+'functions.py','sqlpuzzle/__init__.py'],[('function rendering',QP+'functions.py')],['str(function)','str(query)'])
p('C22','has() reports exactly what is set',
 "query.has(clause) is true exactly when that clause would appear because the caller set it (columns always), false for clauses never set or unknown names; query.has(clause, text) additionally requires the text to occur as a whole word in the clause, taken literally whatever characters it contains. select.has(option) works for option keywords without confusing e.g. distinct with distinctrow. It never raises for a query that can be rendered. (Searching for a text inside the FOR UPDATE part is not covered.)",
 ['inputs','histories'],'every clause of every query kind, every search text',
 'Tests ask for a few names; regular-expression characters are never tried.',
 [Q+'query.py',Q+'select.py',Q+'options.py',QP+'queryparts.py'],[('clause lookup',Q+'query.py Query.has'),('word search',QP+'queryparts.py has')],['query.has()'])
p('C23','Subqueries and unions embed and compose faithfully',
 "A Select or Union used as a column, table, condition column, value, list operand, join table or function argument is rendered inside exactly one pair of parentheses with its full text; exists() adds its own. a | b renders a UNION b and a & b renders a UNION ALL b with operands in order, a chain a | b & c ... renders its operands and operators in the order written, operands are not modified. Every SQL object usable as a part (Select, Union, function, C, V, R, Not, exists) can serve as a dict key wherever a dict of parts is accepted.",
 ['inputs','programs'],'every embedding position x every subquery kind, every chain of union operators',
 'Tests embed a plain select in six positions and never use a Union as dict key.',
 [Q+'union.py',Q+'select.py',CM+'sqlvalue.py',CM+'object.py',Q+'query.py'],[('parenthesised subselect',CM+'sqlvalue.py SqlValue'),('union rendering',Q+'union.py Union')],['str(query)'])
p('C24','The database server reads back exactly the value the caller supplied',
 "For every value, the literal rendered for the configured backend, parsed by that database server, denotes the caller's value (floats within the server's precision, strings byte for byte).",
 ['inputs','configurations'],'every value x every backend x every server mode',
 'It depends on server lexing modes (NO_BACKSLASH_ESCAPES, standard_conforming_strings) and numeric precision the tests have no access to.',
 [CM+'sqlvalue.py',BE+'sql.py'],[('literal rendering',CM+'sqlvalue.py')],['the database'])
p('C25','Rendering cost stays proportional to the size of the query',
 "Building and rendering take time and memory proportional to the number of parts and the length of the strings.",
 ['inputs'],'every string content and every number of parts',
 'Tests use tiny inputs and measure nothing.',
 [BE+'sql.py',QP+'queryparts.py'],[('identifier patterns',BE+'sql.py')],['wall clock'])
p('C26','No string makes a pattern of the library backtrack exponentially',
 "Whatever string a caller supplies (identifier, value, alias, search text of has(), backend name), the regular expressions the library applies to it need a number of steps that does not grow exponentially with its length: no pattern can match a piece of text in two different ways again and again before failing.",
 ['inputs'],'every string content and length, in every role, on every backend',
 'Tests use strings of a few characters; an ambiguous repetition shows only on a long string that fails to match.',
 [BE+'sql.py',QP+'queryparts.py'],[('identifier patterns',BE+'sql.py SqlBackend.is_reference, SqlBackend.reference'),('word search',QP+'queryparts.py has')],['wall clock of str(query), query.has()'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
