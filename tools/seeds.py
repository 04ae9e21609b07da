def define(seed):
    seed('c01-join-counts-as-condition', 'C01',
         [('_queries/update.py', "if not self._where.is_set and not self._allow_update_all:", "if not self._where.is_set and self._tables.is_simple() and not self._allow_update_all:")],
         '''
from sqlpuzzle.exceptions import ConfirmUpdateAllException
q = s.update('t').join('u').on('t.id', 'u.id').set(a=1)
try:
    str(q)
except ConfirmUpdateAllException:
    sys.exit(0)
sys.exit('rendered: %s' % q)
''', 'an UPDATE with a join and no WHERE', 'an unconditional update is rendered when the table has a join')

    seed('c01-forbid-keeps-copy-permission', 'C01',
         [('_queries/delete.py', "        self._allow_delete_all = False\n        return self", "        self._allow_delete_all = self._references.count_of_parts > 1\n        return self")],
         '''
from sqlpuzzle.exceptions import ConfirmDeleteAllException
q = s.delete('a').from_('a', 'b').allow_delete_all().forbid_delete_all()
try:
    str(q)
except ConfirmDeleteAllException:
    sys.exit(0)
sys.exit('rendered: %s' % q)
''', 'allow_delete_all() then forbid_delete_all() on a delete with two references', 'the forbid is lost')

    seed('c02-escape-shortcut', 'C02',
         [('_common/sqlvalue.py', "    for old, new in replace_table:\n        value = value.replace(old, new)\n    return value",
           "    for old, new in replace_table:\n        if old in value[:256]:\n            value = value.replace(old, new)\n    return value")],
         '''
v = 'x' * 300 + "' OR 1=1 --"
t = str(s.select_from('t').where(name=v))
if t != """SELECT * FROM "t" WHERE "name" = '%s'""" % v.replace("'", "''"):
    sys.exit(t)
''', 'a quote, backslash or newline that occurs only after the 256th character of a value', 'the quote is not escaped: SQL injection')


    seed('c03-star-suffix', 'C03',
         [('_backends/sql.py', "if i != '*' else i for i in parts if i)", "if not i.endswith('*') else i for i in parts if i)")],
         '''
t = str(s.select('a; DROP TABLE t; --*'))
if t != 'SELECT "a; DROP TABLE t; --*"':
    sys.exit(t)
''', 'an identifier ending in an asterisk', 'its text is pasted unquoted')

    seed('c04-decimal-through-float', 'C04',
         [('_common/sqlvalue.py', "        return '{:.5f}'.format(self.value)", "        return '{:.5f}'.format(float(self.value))")],
         '''
import decimal
t = str(s.select_from('t').where(a=decimal.Decimal('123456789012345678.12345')))
if not t.endswith('123456789012345678.12345'):
    sys.exit(t)
''', 'a Decimal that binary floating point cannot hold', 'digits change')




    seed('c07-brackets', 'C07',
         [('_queryparts/conditions.py', "        template += '({})' if self._needs_brackets(self.right) else '{}'",
           "        template += '({})' if self._needs_brackets(self.right) and self.type != self.AND else '{}'"),
          ('_queryparts/conditions.py', "        return isinstance(value, QueryParts) and value.count_of_parts > 1", "        return isinstance(value, QueryParts) and value.count_of_parts > 1 and value._separator_of_parts.strip() == 'AND'")],
         '''
t = str(s.select_from('t').where(s.Q(a=1) & s.Q(b=2, c=3)))
if t != 'SELECT * FROM "t" WHERE ("a" = 1 AND ("b" = 2 AND "c" = 3))':
    sys.exit(t)
''', 'a right operand of & holding several conditions', 'the operand is not parenthesised')

    seed('c07-nested-or', 'C07',
         [('_queryparts/conditions.py', "        return template.format(self.left, self.type, self.right)",
           "        text = template.format(self.left, self.type, self.right)\n        if self.type == self.AND and isinstance(self.left, ConditionsOfConditions) and isinstance(self.right, ConditionsOfConditions):\n            return text[1:-1]\n        return text")],
         '''
Q = s.Q
t = str(s.select_from('t').where(((Q(a=1) | Q(b=2)) & (Q(c=3) | Q(d=4))) | Q(e=5)))
if t != 'SELECT * FROM "t" WHERE ((("a" = 1 OR "b" = 2) AND ("c" = 3 OR "d" = 4)) OR "e" = 5)':
    sys.exit(t)
''', 'an AND of two groups nested in another group', 'the group loses its parentheses')

    seed('c08-empty-terminator', 'C08',
         [('_queryparts/intooutfile.py', "if self._lines_terminated_by is not None:", "if self._lines_terminated_by:")],
         '''
t = str(s.select_from('t').into_outfile('f').lines_terminated_by(''))
if "LINES TERMINATED BY ''" not in t:
    sys.exit(t)
''', "an empty string as the line terminator", 'the argument is dropped')


    seed('c09-last-row-header', 'C09',
         [('_queryparts/values.py', "        return sorted(columns)", "        return sorted(columns) if len(columns) < 8 else list(columns)")],
         '''
import subprocess
code = "import sys; sys.path.insert(0, '.'); import sqlpuzzle as s; print(s.insert_into('t').values(**{'c%d' % i: i for i in range(9)}))"
out = {subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True).stdout for h in range(1, 6)}
if len(out) != 1 or '' in out:
    sys.exit(repr(out))
''', 'an INSERT with eight or more columns', 'the text depends on the hash seed')

    seed('c10-direction-kept', 'C10',
         [('_queryparts/order.py', "                order.sort = sort", "                order.sort = sort or order.sort")],
         '''
t = str(s.select_from('t').order_by(('a', 'desc'), 'b').order_by('a'))
if t != 'SELECT * FROM "t" ORDER BY "a", "b"':
    sys.exit(t)
''', 'ordering by a column with DESC and then again without a direction', 'the old direction stays')

    seed('c10-condition-operator', 'C10',
         [('_queryparts/conditions.py', "            self.relation == other.relation", "            type(self.relation_instance).__mro__[1] == type(other.relation_instance).__mro__[1]")],
         '''
R = s.relations
t = str(s.select_from('t').where('a', R.GE(1)).where('a', R.LE(1)))
if t != 'SELECT * FROM "t" WHERE "a" >= 1 AND "a" <= 1':
    sys.exit(t)
''', 'two conditions on one column and value with different operators of the same family', 'the second is merged into the first')

    seed('c11-mirror-any-relation', 'C11',
         [('_queryparts/tables.py', "self._revert_relation_map.get(type(self.relation_instance), None)", "self._revert_relation_map.get(type(self.relation_instance), type(self.relation_instance))")],
         '''
L = s.relations.LIKE
t = str(s.select_from('t').join('u').on('t.a', L('u.a')).join('u').on('u.a', L('t.a')))
if t.count('JOIN') != 2:
    sys.exit(t)
''', 'two joins of one table with mirrored LIKE conditions', 'different joins are merged')

    seed('c11-inner-in-the-middle', 'C11',
         [('_queryparts/tables.py', "any(bool(join['type'] == INNER_JOIN) for join in joins):", "INNER_JOIN in (joins[0]['type'], joins[-1]['type']):")],
         '''
q = s.select_from('t')
for m in (q.left_join, q.join, q.left_join):
    m('u').on('t.a', 'u.a')
if str(q) != 'SELECT * FROM "t" JOIN "u" ON "t"."a" = "u"."a"':
    sys.exit(str(q))
''', 'three equivalent joins with the inner one in the middle', 'they are not merged')

    seed('c12-cached-reference', 'C12',
         [('_common/sqlvalue.py', "    def _reference(self):\n        return get_backend().reference(self.value)",
           "    def _reference(self):\n        if not hasattr(self, '_text'):\n            self._text = get_backend().reference(self.value)\n        return self._text")],
         '''
r = s.R('a')
str(r)
s.configure('mysql')
if str(r) != '`a`':
    sys.exit(str(r))
''', 'rendering an R() object, switching the backend, rendering again', 'the text of the old backend is reused')

    seed('c12-render-consumes-none', 'C12',
         [('relations.py', """            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)'""",
           """            value = self.value
            if None in value:
                value.remove(None)
                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)'""")],
         '''
q = s.select_from('t').where(a=s.relations.IN([1, None]))
if str(q) != str(q):
    sys.exit(str(q))
''', 'rendering a condition with None in its list twice', 'the second text lacks the NULL test')

    seed('c13-shared-parts', 'C13',
         [('_queryparts/queryparts.py', """    def __str__(self):
        return self._separator.join(force_text(f) for f in self)""",
           """    def __deepcopy__(self, memo):
        parts = type(self)(self._separator)
        parts.extend(self)
        return parts

    def __str__(self):
        return self._separator.join(map(force_text, self))""")],
         '''
q = s.select_from('t').order_by('a')
c = q.copy()
c.order_by(('a', 'desc')).left_join('u')
if str(q) != 'SELECT * FROM "t" ORDER BY "a"':
    sys.exit(str(q))
''', 'changing, on a copy, a part that was there before copying (direction of an order, a join)', 'the original changes too')

    seed('c13-caller-list', 'C13',
         [('relations.py', "            value = list(value)\n        except TypeError:", "            value = value if isinstance(value, list) else list(value)\n        except TypeError:")],
         '''
l = [1, 2]
q = s.select_from('t').where(a=l)
t = str(q)
l.append(3)
if str(q) != t:
    sys.exit(str(q))
''', 'the caller appends to a list after passing it', 'the query built before changes')

    seed('c20-negative-offset', 'C20',
         [('_queryparts/limit.py', "        return self._limit is not None or self._offset is not None", "        return self._limit is not None or bool(self._offset and self._offset > 0)")],
         '''
t = str(s.select_from('t').offset(-1))
if t != 'SELECT * FROM "t" OFFSET -1':
    sys.exit(t)
''', 'a negative offset without a limit', 'the clause set by the caller does not appear')

    seed('c11-on-as-condition', 'C11',
         [('_queries/delete.py', "    def on(self, *args, **kwds):\n        self._references.on(*args, **kwds)", "    def on(self, *args, **kwds):\n        (self._where.where if self._references.is_simple() else self._references.on)(*args, **kwds)")],
         '''
from sqlpuzzle.exceptions import InvalidQueryException
try:
    q = s.delete_from('t').on('a', 'b')
except InvalidQueryException:
    sys.exit(0)
sys.exit(str(q))
''', 'on() on a DELETE without a join', 'the WHERE clause is changed instead')


    seed('c15-ignore-none', 'C15',
         [('_queries/delete.py', "        self._options['ignore'] = 'on' if allow else 'off'", "        self._options['ignore'] = 'off' if allow is False else 'on'")],
         '''
t = str(s.delete_from('t').where(a=1).ignore(0))
if 'IGNORE' in t:
    sys.exit(t)
''', 'ignore() with a false argument that is not the constant False', 'the option is switched on')

    seed('c16-falsy-null', 'C16',
         [('_queryparts/values.py', "str(SqlValue(value.value if value else None)) for value in values)", "str(SqlValue(value and value.value or None)) for value in values)")],
         '''
t = str(s.insert_into('t').values(a=0, b='', c=False))
if t != """INSERT INTO "t" ("a", "b", "c") VALUES (0, '', 0)""":
    sys.exit(t)
''', 'a falsy value in a row', 'NULL is inserted instead')

    seed('c17-unknown-backend-resets', 'C17',
         [('_backends/__init__.py', """    new_backend = BACKENDS.get(str(database).lower())
    if not new_backend:
        raise InvalidArgumentException('Backend {} is not supported.'.format(database))
    global BACKEND  # pylint: disable=global-statement
    BACKEND = new_backend""",
           """    global BACKEND  # pylint: disable=global-statement
    BACKEND = BACKENDS.get(str(database).lower(), SqlBackend)
    if str(database).lower() not in BACKENDS:
        raise InvalidArgumentException('Backend {} is not supported.'.format(database))""")],
         '''
s.configure('mysql')
try:
    s.configure('nonsense')
except s.exceptions.InvalidArgumentException:
    pass
if str(s.select('a')) != 'SELECT `a`':
    sys.exit(str(s.select('a')))
''', 'configure() with an unknown name after another backend was selected', 'the active backend is reset')

    seed('c18-outfile-equality', 'C18',
         [('_queryparts/intooutfile.py', """            self._lines_terminated_by == other._lines_terminated_by and
            self._optionally_enclosed_by == other._optionally_enclosed_by
""", """            self._lines_terminated_by == other._lines_terminated_by
""")],
         '''
a = s.select_from('t').into_outfile('f').optionally_enclosed_by('"')
b = s.select_from('t').into_outfile('f').optionally_enclosed_by("'")
if a == b:
    sys.exit('equal: %s / %s' % (a, b))
''', 'two selects that differ only in OPTIONALLY ENCLOSED BY', 'they compare equal')

    seed('c18-zip-shorter', 'C18',
         [('_queryparts/queryparts.py', "if not isinstance(other, QueryParts) or len(self._parts) != len(other._parts):", "if not isinstance(other, QueryParts) or len(self._parts) > len(other._parts):")],
         '''
a, b = s.select_from('t').where(a=1), s.select_from('t').where(a=1, b=2)
if a == b or b == a:
    sys.exit('equal: %s / %s' % (a, b))
''', 'comparing a query with one that has further conditions, in that order', 'they compare equal')

    seed('c19-false-as-number', 'C19',
         [('relations.py', "                    (bool not in self._allowed_types and isinstance(value, bool))", "                    (bool not in self._allowed_types and value is True)")],
         '''
try:
    r = s.select_from('t').where('a', s.relations.GT(False))
except s.exceptions.InvalidArgumentException:
    sys.exit(0)
sys.exit(str(r))
''', 'False as the operand of a comparison that does not accept booleans', 'it is accepted')

    seed('c20-limit-zero-offset', 'C20',
         [('_queryparts/limit.py', "            if offset is not None:\n                self.offset(offset)", "            if offset:\n                self.offset(offset)")],
         '''
t = str(s.select_from('t').limit(5, 10).limit(5, 0))
if 'OFFSET' in t:
    sys.exit(t)
''', 'limit(n, m) followed by limit(n, 0)', 'the old offset stays')

    seed('c21-count-star', 'C21',
         [('_queryparts/functions.py', "        if self.expr == '*':\n            return self.expr", "        if str(self.expr)[-1:] == '*':\n            return self.expr")],
         '''
t = str(s.count('t.*'))
if t != 'COUNT("t".*)':
    sys.exit(t)
''', 'count() of a qualified asterisk', 'the argument is not quoted')

    seed('c21-distinct-string', 'C21',
         [('_queryparts/functions.py', "        self._distinct = bool(distinct)\n        return self", "        self._distinct = getattr(self, '_distinct', False) or bool(distinct)\n        return self")],
         '''
t = str(s.sum('a').distinct().distinct(False))
if t != 'SUM("a")':
    sys.exit(t)
''', 'distinct() followed by distinct(False)', 'DISTINCT stays')

    seed('c22-lower-case', 'C22',
         [('_queries/query.py', "            return querypart.has(value)", "            return querypart.has(force_text(value).lower())")],
         '''
q = s.select('ID').from_('t')
if not q.has('columns', 'ID') or q.has('columns', 'id'):
    sys.exit('ID not found in %s' % q)
''', 'a text with capital letters', 'has() does not find a text that is there')

    seed('c23-subselect-in-list', 'C23',
         [('_common/sqlvalue.py', "', '.join(force_text(SqlValue(item)) for item in self.value)", "', '.join(force_text(item if is_sql_instance(item) else SqlValue(item)) for item in self.value)")],
         '''
t = str(s.select_from('t').where(a=[1, s.select('x')]))
if t != 'SELECT * FROM "t" WHERE "a" IN (1, (SELECT "x"))':
    sys.exit(t)
''', 'a subquery as an element of a list', 'it loses its parentheses')

    seed('c23-union-type-of-chain', 'C23',
         [('_queries/union.py', "        return Union(self, other, UNION_ALL)", "        return Union(self, other, UNION_ALL if isinstance(other, Union) is isinstance(self.query2, Union) else UNION)")],
         '''
a, b, c, d = [s.select(x) for x in 'abcd']
t = str((a | b) & (c | d))
if ' UNION ALL SELECT "c"' not in t:
    sys.exit(t)
''', 'a union combined by & with another union', 'UNION ALL becomes UNION')

    seed('c02-four-part-reference', 'C02',
         [('_backends/sql.py', "[^{quote}. ]+)){{0,2}}$'", "[^{quote}. ]+)){{0,3}}$'")],
         '''
v = '"a".b.c.d'
t = str(s.select_from('t').where(x=v))
if t != """SELECT * FROM "t" WHERE "x" = '"a".b.c.d'""":
    sys.exit(t)
''', 'a value that looks like a quoted identifier followed by three dotted parts', 'user data becomes a column reference')

    seed('c04-postgresql-leading-zeros', 'C04',
         [('_backends/postgresql.py', "binascii.hexlify(value).decode('ascii')", "binascii.hexlify(value).decode('ascii').lstrip('0')")],
         '''
s.configure('postgresql')
t = str(s.V(b'\\x00\\x01'))
if t != "E'" + chr(92) * 2 + "x0001'":
    sys.exit(t)
''', 'PostgreSQL and bytes whose first hexadecimal digits are zero', 'leading digits of the value are lost')

    seed('c05-is-number', 'C05',
         [('relations.py', "    _string_representation = 'IS'\n    _allowed_types = (bool, type(None))", "    _string_representation = 'IS'\n    _allowed_types = (int, type(None))")],
         '''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    t = str(s.select_from('t').where(a=s.relations.IS(5)))
except InvalidArgumentException:
    pass
else:
    sys.exit(t)
''', 'a number given to IS or IS_NOT', 'an operand type that IS does not support is accepted (and booleans are refused)')

    seed('c06-equal-elements', 'C06',
         [('relations.py', """            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' AND %(col)s IS NOT NULL)'""",
           """            value = [v for i, v in enumerate(self.value) if v is not None and v not in self.value[:i]]
            if None in self.value:
                if value:
                    template = '(' + template + ' AND %(col)s IS NOT NULL)'""")],
         '''
t = str(s.select_from('t').where(a=s.relations.NOT_IN([1, True, 0, None, False])))
if '(1, 1, 0, 0)' not in t:
    sys.exit(t)
''', 'NOT IN over a list with elements that Python calls equal (1 and True, 0 and False)', 'elements disappear from the list')

    seed('c08-surplus-none', 'C08',
         [('_common/argsparser.py', "        if len(values) > self.options.max_items:\n", "        if any(value is not None for value in values[self.options.max_items:]):\n"),
          ('_common/argsparser.py', "self._append_nones(tuple(values))", "self._append_nones(tuple(values)[:self.options.max_items])")],
         '''
from sqlpuzzle.exceptions import InvalidArgumentException
try:
    t = str(s.select(('a', 'b', None)))
except InvalidArgumentException:
    sys.exit(0)
sys.exit(t)
''', 'a tuple with too many items of which the surplus ones are None', 'the tuple is cut instead of refused')

    seed('c15-truthy-switch', 'C15',
         [('_queries/selectoptions.py', "        self._options['straight_join'] = 'on' if allow else 'off'", "        self._options['straight_join'] = 'on' if allow is True else 'off'")],
         '''
t = str(s.select_from('t').straight_join(1))
if t != 'SELECT STRAIGHT_JOIN * FROM "t"':
    sys.exit(t)
''', 'an option switched on by a true value other than True', 'the option is switched off')

    seed('c02-windows-newline', 'C02',
         [('_common/sqlvalue.py', '        ("\\n", "\\\\n"),', '        ("\\r\\n", "\\\\n"),\n        ("\\n", "\\\\n"),')],
         r'''
t = str(s.V('a\r\nb'))
if t != "'a\r\\nb'":
    sys.exit(repr(t))
''', 'a value holding a carriage return followed by a newline', 'the carriage return disappears from the literal')

    seed('c04-zone-dropped', 'C04',
         [('_common/sqlvalue.py', """return "'{}'".format(self.value.isoformat())""",
           """return "'{}'".format(self.value.isoformat() if getattr(self.value, 'tzinfo', None) is None else self.value.replace(tzinfo=None).isoformat())""")],
         '''
import datetime
v = datetime.datetime(2020, 1, 2, 3, 4, tzinfo=datetime.timezone.utc)
t = str(s.select_from('t').where(a=v))
if "'2020-01-02T03:04:00+00:00'" not in t:
    sys.exit(t)
''', 'a datetime with a time zone', 'the offset is left out of the literal')

    seed('c14-template-in-steps', 'C14',
         [('_queries/query.py', "        return (self._query_template % context).strip()",
           "        template = self._query_template\n        for key, text in context.items():\n            template = template.replace('%({})s'.format(key), text)\n        return template.strip()")],
         '''
for k in ('columns', 'tables', 'where', 'group_by', 'having', 'order_by', 'limit', 'into_outfile', 'select_for_update'):
    v = '%(' + k + ')s'
    t = str(s.select('c').from_('t').where(a=v).having(b=v))
    if t != """SELECT "c" FROM "t" WHERE "a" = '%s' HAVING "b" = '%s'""" % (v, v):
        sys.exit(t)
''', 'a value that reads like a placeholder of the template', 'the value is replaced by the text of another clause')

    seed('c16-header-by-text', 'C16',
         [('_queryparts/values.py', "        return sorted(columns)", "        return sorted(columns, key=lambda column: str(column).lower())")],
         '''
t = str(s.insert_into('t').values(B=1, a=2))
if t != 'INSERT INTO "t" ("B", "a") VALUES (1, 2)':
    sys.exit(t)
''', 'column names that differ in case', 'the header is not in the order of the names')

    seed('c26-ambiguous-identifier', 'C26',
         [('_backends/sql.py', "'^(({quote}([^{quote}]|({quote}{quote}))+{quote}))'", "'^(({quote}([^{quote}]+|({quote}{quote}))+{quote}))'")],
         '''
import signal
signal.alarm(20)
t = str(s.V('"' + 'a' * 60))
if t != "'\\"" + 'a' * 60 + "'":
    sys.exit(t)
''', 'a long value that begins with a quote character that is never closed', 'rendering the value takes time exponential in its length')

    seed('c26-ambiguous-part', 'C26',
         [('_backends/sql.py', "'(\\.(({quote}([^{quote}]|({quote}{quote}))+{quote})|[^{quote}. ]+)){{0,2}}$'",
           "'(\\.(({quote}([^{quote}]|({quote}{quote}))+{quote})|([^{quote}. ]+_?)+)){{0,2}}$'")],
         '''
import signal
signal.alarm(20)
s.configure('mysql')
t = str(s.select_from('t').where(a='`t`.' + 'c' * 60 + ' '  + 'd'))
if 'WHERE' not in t:
    sys.exit(t)
''', 'a value that reads like a quoted table and a long column followed by another word', 'rendering the value takes time exponential in its length')

    seed('c10-recent-parts', 'C10',
         [('_queryparts/queryparts.py', "        for part in self._parts:\n            if part == other_part:", "        for part in self._parts[-8:]:\n            if part == other_part:")],
         '''
n = ['c%d' % i for i in range(12)]
if str(s.select(*n).columns('c0')) != str(s.select(*n)):
    sys.exit(str(s.select(*n).columns('c0')))
''', 'a part repeated after more than eight others', 'the repeated part is not merged')
