"""Behaviour-preserving rewrites, group 1: expressions, loops, helpers."""
EDITS = {
'_common/sqlvalue.py': [
("""    replace_table = (
        ("\\\\", "\\\\\\\\"),
        ("'", "''"),
        ("\\n", "\\\\n"),
    )
    for old, new in replace_table:
        value = value.replace(old, new)
    return value
""", """    return value.translate(_ESCAPES)
"""),
("def _escape_value(value):", """_ESCAPES = str.maketrans({
    "\\\\": "\\\\\\\\",
    "'": "''",
    "\\n": "\\\\n",
})


def _escape_value(value):"""),
("""        for type_, method in self._map.items():
            if type(self.value) is bool and type_ is not bool:
                continue
            if isinstance(self.value, type_):
                return method
        if is_sql_instance(self.value):
            return self._raw
        return self._undefined
""", """        only_bool = type(self.value) is bool
        found = next((
            method for type_, method in self._map.items()
            if not (only_bool and type_ is not bool) and isinstance(self.value, type_)
        ), None)
        if found is not None:
            return found
        return self._raw if is_sql_instance(self.value) else self._undefined
"""),
("""        if self.value:
            return '({})'.format(', '.join(force_text(SqlValue(item)) for item in self.value))
        raise InvalidArgumentException('Empty list is not allowed.')
""", """        if not self.value:
            raise InvalidArgumentException('Empty list is not allowed.')
        items = []
        for item in self.value:
            items.append(force_text(SqlValue(item)))
        return f"({', '.join(items)})"
"""),
("""        if get_backend().is_reference(self.value):
            return get_backend().reference(self.value.strip())
        return "'{}'".format(_escape_value(force_text(self.value)))
""", """        backend = get_backend()
        if not backend.is_reference(self.value):
            return _quote(_escape_value(force_text(self.value)))
        return backend.reference(self.value.strip())
"""),
("""        return "'{}'".format(self.value.isoformat())
""", """        return _quote(self.value.isoformat())
"""),
("class SqlValue(Object):", """def _quote(text):
    return "'" + text + "'"


class SqlValue(Object):"""),
],
'_backends/sql.py': [
("""        value = value.strip()
        return bool(re.match((
            '^(({quote}([^{quote}]|({quote}{quote}))+{quote}))'
            '(\\.(({quote}([^{quote}]|({quote}{quote}))+{quote})|[^{quote}. ]+)){{0,2}}$'
        ).format(quote=cls.reference_quote), value))
""", """        quote = cls.reference_quote
        quoted = f'{quote}(?:[^{quote}]|{quote}{quote})+{quote}'
        pattern = re.compile(rf'{quoted}(?:\\.(?:{quoted}|[^{quote}. ]+)){{0,2}}')
        return pattern.fullmatch(value.strip()) is not None
"""),
("""        # Odd parts were already quoted (and escaped) in the value.
        parts = [part if i % 2 else part and part.replace(quote, quote * 2) for i, part in enumerate(parts)]
        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
        return '.'.join(parts)
""", """        result = []
        for index, part in enumerate(parts):
            if not part:
                continue
            # Odd parts were already quoted (and escaped) in the value.
            if index % 2 == 0:
                part = part.replace(quote, quote + quote)
            result.append(cls._quote_part(part))
        return '.'.join(result)

    @classmethod
    def _quote_part(cls, part):
        if part == '*':
            return part
        return ''.join((cls.reference_quote, part, cls.reference_quote))
"""),
("""        return "x'{}'".format(binascii.hexlify(value).decode('ascii'))""", """        return f"x'{value.hex()}'" """),
("import binascii\n", ""),
],
'_common/argsparser.py': [
("""        for item in list_:
            if isinstance(item, (list, tuple)):
                self._parse_item(item)
            elif self.options.min_items == 1:
                self._parse_item((item,))
            else:
                raise InvalidArgumentException('Too few arguments.')
""", """        for item in list_:
            if not isinstance(item, (list, tuple)):
                if self.options.min_items != 1:
                    raise InvalidArgumentException('Too few arguments.')
                item = (item,)
            self._parse_item(item)
"""),
("""        if len(values) < self.options.min_items:
            raise InvalidArgumentException('Too few arguments.')
        if len(values) > self.options.max_items:
            raise InvalidArgumentException('Too many arguments.')
        return self._append_nones(tuple(values))

    def _append_nones(self, tuple_with_values):
        count_of_nones = self.options.max_items - len(tuple_with_values)
        tuple_with_nones = (None,) * count_of_nones
        return tuple_with_values + tuple_with_nones
""", """        count = len(values)
        if count < self.options.min_items:
            raise InvalidArgumentException('Too few arguments.')
        missing = self.options.max_items - count
        if missing < 0:
            raise InvalidArgumentException('Too many arguments.')
        return (*values, *([None] * missing))
"""),
("""        items = dictionary.items()
        if not isinstance(dictionary, OrderedDict):
            items = sorted(items, key=self._get_sort_key)
        for item in items:
            self._parse_item(item)
""", """        items = list(dictionary.items())
        if not isinstance(dictionary, OrderedDict):
            items.sort(key=self._get_sort_key)
        self.output_data.extend(map(self._create_batch, items))
"""),
],
'_queryparts/queryparts.py': [
("""        for part in self._parts:
            if part == other_part:
                return True
        return False
""", """        return any(part == other_part for part in self._parts)
"""),
("""        if not self._parts:
            return str(self._default_query_string)
        if self._keyword_of_parts:
            return '%s %s' % (self._keyword_of_parts, self._parts)
        return str(self._parts)
""", """        if not self._parts:
            return str(self._default_query_string)
        text = str(self._parts)
        return f'{self._keyword_of_parts} {text}' if self._keyword_of_parts else text
"""),
("""        return self._separator.join(force_text(f) for f in self)
""", """        return self._separator.join([force_text(part) for part in self])
"""),
("""    res = re.search(r'([^\\w]|^){}([^\\w]|$)'.format(re.escape(value)), str(part))
    return bool(res)
""", """    text = str(part)
    return re.search(r'(?:\\W|^)' + re.escape(value) + r'(?:\\W|$)', text) is not None
"""),
("""            self.append_part(args[0])
            return self
        return func(self, *args, **kwds)
""", """            (custom,) = args
            self.append_part(custom)
        else:
            return func(self, *args, **kwds)
        return self
"""),
],
'_queryparts/conditions.py': [
("""        template = '('
        template += '({})' if self._needs_brackets(self.left) else '{}'
        template += ' {} '
        template += '({})' if self._needs_brackets(self.right) else '{}'
        template += ')'
        return template.format(self.left, self.type, self.right)
""", """        left, right = (self._bracketed(side) for side in (self.left, self.right))
        return f'({left} {self.type} {right})'

    def _bracketed(self, side):
        text = str(side)
        return f'({text})' if self._needs_brackets(side) else text
"""),
("""        for first, second in ((self, other), (other, self)):
            if _is_empty(first):
                return second.copy()
        return ConditionsOfConditions(self, other, type_)
""", """        if _is_empty(self):
            return other.copy()
        if _is_empty(other):
            return self.copy()
        return ConditionsOfConditions(self, other, type_)
"""),
("""    def __and__(self, other):
        if not isinstance(other, (Condition, Conditions, ConditionsOfConditions)):
            raise TypeError(other)
        return self._combine(other, self.AND)

    def __or__(self, other):
        if not isinstance(other, (Condition, Conditions, ConditionsOfConditions)):
            raise TypeError(other)
        return self._combine(other, self.OR)
""", """    @staticmethod
    def _check_operand(other):
        if isinstance(other, (Condition, Conditions, ConditionsOfConditions)):
            return
        raise TypeError(other)

    def __and__(self, other):
        self._check_operand(other)
        return self._combine(other, self.AND)

    def __or__(self, other):
        self._check_operand(other)
        return self._combine(other, self.OR)
"""),
],
'relations.py': [
("""        template = '%(col)s %(rel)s %(val)s'

        try:
            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' OR %(col)s IS NULL)'
                else:
                    template = '%(col)s IS NULL'
        except TypeError:
            # If its not iterable, it can be subselect or something.
            value = self.value

        return template % {
            'col': column,
            'rel': self.relation,
            'val': value_transformer(value),
        }


class NOT_IN""", """        return self._format_with_null(column, value_transformer, 'OR', 'IS NULL')

    def _format_with_null(self, column, value_transformer, operator, null_check):
        try:
            value = [v for v in self.value if v is not None]
            has_null = None in self.value
        except TypeError:
            # If its not iterable, it can be subselect or something.
            value, has_null = self.value, False
        if has_null and not value:
            value_transformer(value)
            return f'{column} {null_check}'
        condition = f'{column} {self.relation} {value_transformer(value)}'
        if has_null:
            condition = f'({condition} {operator} {column} {null_check})'
        return condition


class NOT_IN"""),
("""        template = '%(col)s %(rel)s %(val)s'

        try:
            value = [v for v in self.value if v is not None]
            if None in self.value:
                if value:
                    template = '(' + template + ' AND %(col)s IS NOT NULL)'
                else:
                    template = '%(col)s IS NOT NULL'
        except TypeError:
            # If its not iterable, it can be subselect or something.
            value = self.value

        return template % {
            'col': column,
            'rel': self.relation,
            'val': value_transformer(value),
        }
""", """        return self._format_with_null(column, value_transformer, 'AND', 'IS NOT NULL')
"""),
("""        if len(args) > 1:
            value = args
        elif len(args) == 1:
            value = args[0]
        else:
            value = []
""", """        value = args[0] if len(args) == 1 else (args or [])
"""),
],
'_queryparts/tables.py': [
("""        joins_group = []
        for join in self._joins:
            append_new = True
            for join_group in joins_group:
                if join_group[0]['table'] == join['table'] and join_group[0]['ons'] == join['ons']:
                    join_group.append(join)
                    append_new = False
                    break
            if append_new:
                joins_group.append([join])

        minimized_joins = []
        for joins in joins_group:
            if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
            elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
                minimized_joins.append(joins[0])
            else:
                minimized_joins.extend(joins)
        return minimized_joins
""", """        minimized_joins = []
        for joins in self._group_joins():
            first = joins[0]
            types = [join['type'] for join in joins]
            if len(joins) == 1:
                minimized_joins.append(first)
            elif INNER_JOIN in types:
                minimized_joins.append({**first, 'type': INNER_JOIN})
            elif len(set(types)) == 1:
                minimized_joins.append(first)
            else:
                minimized_joins += joins
        return minimized_joins

    def _group_joins(self):
        groups = []
        for join in self._joins:
            for group in groups:
                if group[0]['table'] == join['table'] and group[0]['ons'] == join['ons']:
                    group.append(join)
                    break
            else:
                groups.append([join])
        return groups
"""),
("""        if self._joins:
            table += ' ' + ' '.join(
                '{} {}{}'.format(
                    JOIN_TYPES[join['type']],
                    join['table'],
                    ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
                ) for join in self._get_minimized_joins()
            )

        return table
""", """        return ' '.join([table] + [self._join_to_string(join) for join in self._get_minimized_joins()])

    @staticmethod
    def _join_to_string(join):
        text = f"{JOIN_TYPES[join['type']]} {join['table']}"
        if join['ons'].is_set:
            text += f" ON {join['ons']}"
        return text
"""),
("""        args = [arg for arg in args if arg is not None and arg != '']
""", """        args = tuple(arg for arg in args if not (arg is None or arg == ''))
"""),
],
'_queryparts/limit.py': [
("""        res = ''
        if self._limit is not None:
            res += 'LIMIT {}'.format(self._limit)
        if self._offset is not None:
            if res:
                res += ' '
            res += 'OFFSET {}'.format(self._offset)
        return res
""", """        parts = (('LIMIT', self._limit), ('OFFSET', self._offset))
        return ' '.join('%s %d' % part for part in parts if part[1] is not None)
"""),
],
'_queryparts/intooutfile.py': [
("""        into_outfile = 'INTO OUTFILE {}'.format(SqlValue(self._into_outfile))
        if self._fields_terminated_by is not None:
            into_outfile += ' FIELDS TERMINATED BY {}'.format(SqlValue(self._fields_terminated_by))
        if self._lines_terminated_by is not None:
            into_outfile += ' LINES TERMINATED BY {}'.format(SqlValue(self._lines_terminated_by))
        if self._optionally_enclosed_by is not None:
            into_outfile += ' OPTIONALLY ENCLOSED BY {}'.format(SqlValue(self._optionally_enclosed_by))
        return into_outfile
""", """        result = ['INTO OUTFILE %s' % SqlValue(self._into_outfile)]
        for keyword, value in (
                ('FIELDS TERMINATED BY', self._fields_terminated_by),
                ('LINES TERMINATED BY', self._lines_terminated_by),
                ('OPTIONALLY ENCLOSED BY', self._optionally_enclosed_by),
        ):
            if value is not None:
                result.append('%s %s' % (keyword, SqlValue(value)))
        return ' '.join(result)
"""),
],
'_queryparts/values.py': [
("""        columns = set()
        for values in self._parts:
            for value in values._parts:
                columns.add(value.column_name)
        return sorted(columns)
""", """        return sorted({value.column_name for values in self._parts for value in values._parts})
"""),
("""        values = self._parts
        if column_order:
            map_of_col_to_val = dict((value.column_name, value) for value in values)
            values = [map_of_col_to_val.get(column, None) for column in column_order]
        return ', '.join(str(SqlValue(value.value if value else None)) for value in values)
""", """        if column_order:
            by_column = {}
            for value in self._parts:
                by_column[value.column_name] = value
            values = []
            for column in column_order:
                if column in by_column:
                    values.append(by_column[column].value)
                else:
                    values.append(None)
        else:
            values = [value.value for value in self._parts]
        return ', '.join(str(SqlValue(value)) for value in values)
"""),
],
'_queries/query.py': [
("""        context = {}
        for key, querypart in self._queryparts.items():
            is_set = getattr(querypart, 'is_set', True)
            if is_set:
                context[key] = ' ' + force_text(querypart)
            else:
                context[key] = ''
        return (self._query_template % context).strip()
""", """        context = {key: self._part_to_string(part) for key, part in self._queryparts.items()}
        return (self._query_template % context).strip()

    @staticmethod
    def _part_to_string(part):
        if not getattr(part, 'is_set', True):
            return ''
        return ' {}'.format(force_text(part))
"""),
("""        if type(self) != type(other):
            return False
        sqps = self._queryparts
        oqps = other._queryparts
        if len(sqps) != len(oqps):
            return False
        return all(bool(sqp == oqp) for sqp, oqp in zip(sqps.values(), oqps.values()))
""", """        if type(self) is not type(other):
            return False
        mine, theirs = list(self._queryparts.values()), list(other._queryparts.values())
        if len(mine) != len(theirs):
            return False
        for my_part, their_part in zip(mine, theirs):
            if not my_part == their_part:
                return False
        return True
"""),
("""        querypart = self._queryparts.get(querypart_name)
        if not querypart:
            return False
        if not querypart.is_set:
            return False
        if value:
            return querypart.has(value)
        return True
""", """        part = self._queryparts.get(querypart_name)
        if not part or not part.is_set:
            return False
        return part.has(value) if value else True
"""),
],
'_queries/options.py': [
("""        self._options = {}
        for option_key in self._definition_of_options:
            self._options[option_key] = 'off'
""", """        self._options = dict.fromkeys(self._definition_of_options, 'off')
"""),
("""        return ' '.join(sorted(
            self._definition_of_options[key][val]
            for key, val in self._options.items()
            if val != 'off'
        ))
""", """        names = []
        for key, val in self._options.items():
            if val == 'off':
                continue
            names.append(self._definition_of_options[key][val])
        names.sort()
        return ' '.join(names)
"""),
],
'_queries/union.py': [
("""        return '{} {} {}'.format(
            self.query1,
            self.union_type,
            self.query2,
        )
""", """        return f'{self.query1} {self.union_type} {self.query2}'
"""),
],
'_queryparts/functions.py': [
("""        return '{}({}{}{})'.format(
            self._function_name,
            self._columns,
            self._str_order_by(),
            self._str_separator(),
        )
""", """        inner = str(self._columns) + self._str_order_by() + self._str_separator()
        return f'{self._function_name}({inner})'
"""),
("""        if isinstance(self.expr, (list, tuple)):
            return ', '.join(force_text(SqlReference(e)) for e in self.expr)
        return SqlReference(self.expr)
""", """        if not isinstance(self.expr, (list, tuple)):
            return SqlReference(self.expr)
        return ', '.join(map(force_text, map(SqlReference, self.expr)))
"""),
],
}
