"""Behaviour-preserving rewrites, group 4: tokenizers, dataclasses and enums, generated methods, tables of classes, memos."""
EDITS = {
'_common/sqlvalue.py': [
("""    replace_table = (
        ("\\\\", "\\\\\\\\"),
        ("'", "''"),
        ("\\n", "\\\\n"),
    )
    for old, new in replace_table:
        value = value.replace(old, new)
    return value
""", """    return _SPECIAL.sub(_replace_special, value)
"""),
("""def _escape_value(value):
""", """_REPLACEMENTS = {'\\\\': '\\\\\\\\', "'": "''", '\\n': '\\\\n'}
_SPECIAL = re.compile('[{}]'.format(re.escape(''.join(_REPLACEMENTS))))


def _replace_special(match):
    return _REPLACEMENTS[match.group()]


def _escape_value(value):
"""),
("import decimal\nimport types\n", "import decimal\nimport re\nimport types\n"),
("""        for type_, method in self._map.items():
            if type(self.value) is bool and type_ is not bool:
                continue
            if isinstance(self.value, type_):
                return method
        if is_sql_instance(self.value):
            return self._raw
        return self._undefined
""", """        value, is_bool = self.value, type(self.value) is bool
        candidates = (
            method for type_, method in self._map.items()
            if isinstance(value, type_) and (type_ is bool or not is_bool)
        )
        fallback = self._raw if is_sql_instance(value) else self._undefined
        return next(candidates, fallback)
"""),
("""        if self.value:
            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))
        raise InvalidArgumentException('Empty list is not allowed.')
""", """        if not self.value:
            raise InvalidArgumentException('Empty list is not allowed.')
        rendered = []
        for item in self.value:
            rendered.append(SqlValue(item).tosql())
        return f"({', '.join(rendered)})"
"""),
],
'_backends/sql.py': [
("""        value = value.strip()
        return bool(re.match((
            '^(({quote}([^{quote}]|({quote}{quote}))+{quote}))'
            '(\\.(({quote}([^{quote}]|({quote}{quote}))+{quote})|[^{quote}. ]+)){{0,2}}$'
        ).format(quote=cls.reference_quote), value))
""", """        return _reference_pattern(cls.reference_quote).match(value.strip()) is not None
"""),
("""class SqlBackend:
    name = 'SQL'
""", """@functools.lru_cache(maxsize=None)
def _reference_pattern(quote):
    quoted = '{quote}(?:[^{quote}]|{quote}{quote})+{quote}'.format(quote=quote)
    bare = '[^{quote}. ]+'.format(quote=quote)
    return re.compile('{quoted}(?:\\\\.(?:{quoted}|{bare})){{0,2}}$'.format(quoted=quoted, bare=bare))


class SqlBackend:
    name = 'SQL'
"""),
("import binascii\nimport re\n", "import binascii\nimport functools\nimport re\n"),
("""        parts = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\\.'.format(quote=quote), value)
        # Odd parts were already quoted (and escaped) in the value.
        parts = [part if i % 2 else part and part.replace(quote, quote * 2) for i, part in enumerate(parts)]
        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
        return '.'.join(parts)
""", """        pattern = re.compile(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\\.'.format(quote=quote))
        names = []
        start = 0
        for match in pattern.finditer(value):
            names.append(value[start:match.start()].replace(quote, quote * 2))
            # Already quoted (and escaped) in the value.
            names.append(match.group(1))
            start = match.end()
        names.append(value[start:].replace(quote, quote * 2))
        return '.'.join(name if name == '*' else quote + name + quote for name in names if name)
"""),
("""        return "x'{}'".format(binascii.hexlify(value).decode('ascii'))""", """        return "x'%s'" % value.hex()"""),
],
'_queryparts/tables.py': [
("""INNER_JOIN = 0
LEFT_JOIN = 1
RIGHT_JOIN = 2
FULL_JOIN = 3

JOIN_TYPES = {
    INNER_JOIN: 'JOIN',
    LEFT_JOIN: 'LEFT JOIN',
    RIGHT_JOIN: 'RIGHT JOIN',
    FULL_JOIN: 'FULL JOIN',
}
""", """class JoinType(enum.Enum):
    INNER = 'JOIN'
    LEFT = 'LEFT JOIN'
    RIGHT = 'RIGHT JOIN'
    FULL = 'FULL JOIN'


INNER_JOIN = JoinType.INNER
LEFT_JOIN = JoinType.LEFT
RIGHT_JOIN = JoinType.RIGHT
FULL_JOIN = JoinType.FULL
"""),
("import sqlpuzzle\nfrom sqlpuzzle._backends", "import dataclasses\nimport enum\nimport typing\n\nimport sqlpuzzle\nfrom sqlpuzzle._backends"),
("""            table += ' ' + ' '.join(
                '{} {}{}'.format(
                    JOIN_TYPES[join['type']],
                    join['table'],
                    ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
                ) for join in self._get_minimized_joins()
            )
""", """            table = ' '.join([table] + [str(join) for join in self._get_minimized_joins()])
"""),
("""        self._joins.append({
            'type': join_type,
            'table': table,
            'ons': OnConditions(),
        })
""", """        self._joins.append(Join(join_type, table))
"""),
("""        self._joins[-1]['ons'].where(*args, **kwds)
""", """        self._joins[-1].ons.where(*args, **kwds)
"""),
("""        joins_group = []
        for join in self._joins:
            append_new = True
            for join_group in joins_group:
                if join_group[0]['table'] == join['table'] and join_group[0]['ons'] == join['ons']:
                    join_group.append(join)
                    append_new = False
                    break
            if append_new:
                joins_group.append([join])

        minimized_joins = []
        for joins in joins_group:
            if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
            elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
                minimized_joins.append(joins[0])
            else:
                minimized_joins.extend(joins)
        return minimized_joins
""", """        joins_group = []
        for join in self._joins:
            group = next((group for group in joins_group if group[0].is_same_as(join)), None)
            if group is None:
                joins_group.append([join])
            else:
                group.append(join)

        minimized_joins = []
        for joins in joins_group:
            types = {join.type for join in joins}
            if INNER_JOIN in types:
                minimized_joins.append(dataclasses.replace(joins[0], type=INNER_JOIN))
            elif len(types) == 1:
                minimized_joins.append(joins[0])
            else:
                minimized_joins += joins
        return minimized_joins
"""),
("""class Table(QueryPart):
    def __init__""", """@dataclasses.dataclass
class Join:
    type: JoinType
    table: 'Table'
    ons: OnConditions = dataclasses.field(default_factory=OnConditions)

    def __str__(self):
        on = ' ON {}'.format(self.ons) if self.ons.is_set else ''
        return '{} {}{}'.format(self.type.value, self.table, on)

    def is_same_as(self, other):
        return self.table == other.table and self.ons == other.ons


class Table(QueryPart):
    def __init__"""),
],
'_queries/selectoptions.py': [
("""    def sql_cache(self, allow=True):
        self._options['sql_cache'] = 'cache' if allow else 'off'

    def sql_no_cache(self, allow=True):
        self._options['sql_cache'] = 'no_cache' if allow else 'off'

    def all(self, allow=True):
        self._options['duplicated'] = 'all' if allow else 'off'

    def distinct(self, allow=True):
        self._options['duplicated'] = 'distinct' if allow else 'off'

    def distinctrow(self, allow=True):
        self._options['duplicated'] = 'distinctrow' if allow else 'off'

    def sql_small_result(self, allow=True):
        self._options['sql_small_result'] = 'on' if allow else 'off'

    def sql_big_result(self, allow=True):
        self._options['sql_big_result'] = 'on' if allow else 'off'

    def sql_buffer_result(self, allow=True):
        self._options['sql_buffer_result'] = 'on' if allow else 'off'

    def sql_calc_found_rows(self, allow=True):
        self._options['sql_calc_found_rows'] = 'on' if allow else 'off'

    def straight_join(self, allow=True):
        self._options['straight_join'] = 'on' if allow else 'off'

    def high_priority(self, allow=True):
        self._options['high_priority'] = 'on' if allow else 'off'
""", """    sql_cache = switch('sql_cache', 'cache')
    sql_no_cache = switch('sql_cache', 'no_cache')
    all = switch('duplicated', 'all')
    distinct = switch('duplicated', 'distinct')
    distinctrow = switch('duplicated', 'distinctrow')
    sql_small_result = switch('sql_small_result')
    sql_big_result = switch('sql_big_result')
    sql_buffer_result = switch('sql_buffer_result')
    sql_calc_found_rows = switch('sql_calc_found_rows')
    straight_join = switch('straight_join')
    high_priority = switch('high_priority')
"""),
("from sqlpuzzle._queries.options import Options\n", "from sqlpuzzle._queries.options import Options, switch\n"),
],
'_queries/options.py': [
("""class Options(Object):
""", """def switch(key, state='on'):
    def method(self, allow=True):
        self._options[key] = state if allow else 'off'
    return method


class Options(Object):
"""),
("""        self._options = {}
        for option_key in self._definition_of_options:
            self._options[option_key] = 'off'
""", """        self._options = dict.fromkeys(self._definition_of_options, 'off')
"""),
("""            and len(self._options) == len(other._options)
            and all(bool(so == oo) for so, oo in zip(self._options.values(), other._options.values()))
""", """            and self._options == other._options
"""),
("""        return ' '.join(sorted(
            self._definition_of_options[key][val]
            for key, val in self._options.items()
            if val != 'off'
        ))
""", """        words = [self._definition_of_options[key][val] for key, val in self._options.items()]
        return ' '.join(sorted(filter(None, words)))
"""),
],
'_queryparts/queryparts.py': [
("""        if not self._parts:
            return str(self._default_query_string)
        if self._keyword_of_parts:
            return '%s %s' % (self._keyword_of_parts, self._parts)
        return str(self._parts)
""", """        if not self._parts:
            return str(self._default_query_string)
        return ' '.join(filter(None, (str(self._keyword_of_parts), str(self._parts))))
""" if False else """        if not self._parts:
            return str(self._default_query_string)
        prefix = f'{self._keyword_of_parts} ' if self._keyword_of_parts else ''
        return f'{prefix}{self._parts}'
"""),
("""        for part in self._parts:
            if part == other_part:
                return True
        return False

    def __eq__""", """        return any(part == other_part for part in self._parts)

    def __eq__"""),
("""        if not isinstance(other, QueryParts) or len(self._parts) != len(other._parts):
            return False
        return all(sp == op for sp, op in zip(self._parts, other._parts))
""", """        return (
            isinstance(other, QueryParts)
            and self.count_of_parts == other.count_of_parts
            and not any(sp != op for sp, op in zip(self._parts, other._parts))
        )
"""),
],
'relations.py': [
("""    def _format_condition(self, column, value_transformer=lambda value: value):
        template = '%(col)s %(rel)s %(val)s'

        try:
            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)'
                else:
                    template = '%(col)s IS NULL'
        except TypeError:
            # If its not iterable, it can be subselect or something.
            value = self.value

        return template % {
            'col': column,
            'rel': self.relation,
            'val': value_transformer(value),
        }


class NOT_IN""", """    _glue, _null_test = 'OR', 'IS NULL'

    def _format_condition(self, column, value_transformer=lambda value: value):
        null_condition = f'{column} {self._null_test}'
        try:
            value = [v for v in self.value if v is not None]
        except TypeError:
            # If its not iterable, it can be subselect or something.
            value, has_null = self.value, False
        else:
            has_null = None in self.value
            if has_null and not value:
                value_transformer(value) if False else None
                return null_condition
        condition = f'{column} {self.relation} {value_transformer(value)}'
        return f'({condition} {self._glue} {null_condition})' if has_null else condition


class NOT_IN""".replace("                value_transformer(value) if False else None\n", "")),
("""    _string_representation = 'NOT IN'

    def _format_condition(self, column, value_transformer=lambda value: value):
        template = '%(col)s %(rel)s %(val)s'

        try:
            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' AND %(col)s IS NOT NULL)'
                else:
                    template = '%(col)s IS NOT NULL'
        except TypeError:
            # If its not iterable, it can be subselect or something.
            value = self.value

        return template % {
            'col': column,
            'rel': self.relation,
            'val': value_transformer(value),
        }
""", """    _string_representation = 'NOT IN'
    _glue, _null_test = 'AND', 'IS NOT NULL'
"""),
],
'_queryparts/values.py': [
("""        values = self._parts
        if column_order:
            map_of_col_to_val = dict((value.column_name, value) for value in values)
            values = [map_of_col_to_val.get(column, None) for column in column_order]
        return ', '.join(str(SqlValue(value.value if value else None)) for value in values)
""", """        if column_order:
            row = {value.column_name: value.value for value in self._parts}
            values = map(row.get, column_order)
        else:
            values = (value.value for value in self._parts)
        return ', '.join(map(str, map(SqlValue, values)))
"""),
("""        columns = set()
        for values in self._parts:
            for value in values._parts:
                columns.add(value.column_name)
        return sorted(columns)
""", """        return sorted(set(itertools.chain.from_iterable(
            (value.column_name for value in values._parts) for values in self._parts
        )))
"""),
("import datetime\nimport decimal\n", "import datetime\nimport decimal\nimport itertools\n"),
],
'_queries/query.py': [
("""        context = {}
        for key, querypart in self._queryparts.items():
            is_set = getattr(querypart, 'is_set', True)
            if is_set:
                context[key] = ' ' + force_text(querypart)
            else:
                context[key] = ''
        return (self._query_template % context).strip()
""", """        return (self._query_template % _Context(self._queryparts)).strip()
"""),
("""class Query(Object):
""", """class _Context(dict):
    def __missing__(self, key):
        raise KeyError(key)

    def __getitem__(self, key):
        querypart = super().__getitem__(key)
        return ' ' + force_text(querypart) if getattr(querypart, 'is_set', True) else ''


class Query(Object):
"""),
("""        sqps = self._queryparts
        oqps = other._queryparts
        if len(sqps) != len(oqps):
            return False
        return all(bool(sqp == oqp) for sqp, oqp in zip(sqps.values(), oqps.values()))
""", """        pairs = zip(self._queryparts.values(), other._queryparts.values())
        for mine, others in pairs:
            if mine == others:
                continue
            return False
        return len(self._queryparts) == len(other._queryparts)
"""),
],
'_queryparts/order.py': [
("""        for column_name, sort in parse_args(options, *args, **kwds):
            order = self._find_order_by_column_name(column_name)
            if order is None:
                order = Order(column_name, sort)
                self.append_part(order)
            else:
                order.sort = sort
""", """        for column_name, sort in parse_args(options, *args, **kwds):
            try:
                order = next(o for o in self._parts if is_same_value(o.column_name, column_name))
            except StopIteration:
                self.append_part(Order(column_name, sort))
            else:
                order.sort = sort
"""),
],
'_queryparts/functions.py': [
("""        return '{}({}{}{})'.format(
            self._function_name,
            self._columns,
            self._str_order_by(),
            self._str_separator(),
        )
""", """        pieces = [str(self._columns)]
        if self._order_by.is_set:
            pieces.append(str(self._order_by))
        if self._separator is not None:
            pieces.append(f'SEPARATOR {SqlValue(self._separator)}')
        return f"{self._function_name}({' '.join(pieces)})"
"""),
],
'_queryparts/conditions.py': [
("""        template = '('
        template += '({})' if self._needs_brackets(self.left) else '{}'
        template += ' {} '
        template += '({})' if self._needs_brackets(self.right) else '{}'
        template += ')'
        return template.format(self.left, self.type, self.right)
""", """        left, right = (
            '({})'.format(side) if self._needs_brackets(side) else str(side)
            for side in (self.left, self.right)
        )
        return '({left} {operator} {right})'.format(left=left, operator=self.type, right=right)
"""),
],
}
EDITS['_queryparts/tables.py'][1] = (EDITS['_queryparts/tables.py'][1][0], EDITS['_queryparts/tables.py'][1][1].replace('import typing\n', ''))
