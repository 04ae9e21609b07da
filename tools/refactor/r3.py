"""Behaviour-preserving rewrites, group 3: control flow, guards, match statements, comprehension/loop swaps."""
EDITS = {
'_common/utils.py': [
("""    if is_sql_instance(value):
        return value.tosql()
    return str(value)
""", """    return value.tosql() if is_sql_instance(value) else str(value)
"""),
("""    return hasattr(value, 'tosql')
""", """    return getattr(value, 'tosql', None) is not None
"""),
("""    if type(value1) != type(value2):
        return False
    if isinstance(value1, (list, tuple)):
        return len(value1) == len(value2) and all(map(is_same_value, value1, value2))
    return value1 == value2
""", """    if type(value1) is not type(value2):
        return False
    if not isinstance(value1, (list, tuple)):
        return value1 == value2
    if len(value1) != len(value2):
        return False
    for item1, item2 in zip(value1, value2):
        if not is_same_value(item1, item2):
            return False
    return True
"""),
("""            if (
                    (not isinstance(value, allowed_types) or (isinstance(value, bool) and bool not in allowed_types))
                    and not hasattr(value, 'tosql')
            ):
                raise InvalidArgumentException('{} cannot be of type {}.'.format(
                    func.__name__,
                    type(value),
                ))
            return func(self, value, *args, **kwds)
""", """            if not is_sql_instance(value) and not is_allowed(value):
                raise InvalidArgumentException('{} cannot be of type {}.'.format(func.__name__, type(value)))
            return func(self, value, *args, **kwds)
"""),
("""def check_type_decorator(allowed_types=()):
    def decorator(func):""", """def check_type_decorator(allowed_types=()):
    def is_allowed(value):
        if not isinstance(value, allowed_types):
            return False
        return not isinstance(value, bool) or bool in allowed_types

    def decorator(func):"""),
],
'_common/sqlvalue.py': [
("""        for type_, method in self._map.items():
            if type(self.value) is bool and type_ is not bool:
                continue
            if isinstance(self.value, type_):
                return method
        if is_sql_instance(self.value):
            return self._raw
        return self._undefined
""", """        if type(self.value) is bool:
            method = self._map.get(bool)
            if method is not None:
                return method
        else:
            for type_ in self._map:
                if isinstance(self.value, type_):
                    return self._map[type_]
        if not is_sql_instance(self.value):
            return self._undefined
        return self._raw
"""),
("""    replace_table = (
        ("\\\\", "\\\\\\\\"),
        ("'", "''"),
        ("\\n", "\\\\n"),
    )
    for old, new in replace_table:
        value = value.replace(old, new)
    return value
""", """    return value.replace('\\\\', '\\\\\\\\').replace("'", "''").replace('\\n', '\\\\n')
"""),
],
'_backends/sql.py': [
("""        if not isinstance(value, str):
            return False
        value = value.strip()
        return bool(re.match((
            '^(({quote}([^{quote}]|({quote}{quote}))+{quote}))'
            '(\\.(({quote}([^{quote}]|({quote}{quote}))+{quote})|[^{quote}. ]+)){{0,2}}$'
        ).format(quote=cls.reference_quote), value))
""", """        return isinstance(value, str) and bool(cls._reference_pattern().match(value.strip()))

    @classmethod
    def _reference_pattern(cls):
        return re.compile(r'''
            ^
            {quote} (?: [^{quote}] | {quote}{quote} )+ {quote}
            (?:
                \\.
                (?: {quote} (?: [^{quote}] | {quote}{quote} )+ {quote} | [^{quote}.\\ ]+ )
            ){{0,2}}
            $
        '''.format(quote=cls.reference_quote), re.VERBOSE)
"""),
("""        parts = [part if i % 2 else part and part.replace(quote, quote * 2) for i, part in enumerate(parts)]
        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
        return '.'.join(parts)
""", """        parts[::2] = [part.replace(quote, quote * 2) for part in parts[::2]]
        parts = filter(None, parts)
        return '.'.join(part if part == '*' else f'{quote}{part}{quote}' for part in parts)
"""),
("""        return "x'{}'".format(binascii.hexlify(value).decode('ascii'))""", """        return "x'" + ''.join('%02x' % byte for byte in value) + "'" """),
("import binascii\n", ""),
],
'_queryparts/conditions.py': [
("""        if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
            for item in args:
                self.append_unique_part(item)
            args = ()
        for column_name, value in parse_args(options, *args, **kwds):
            self.append_unique_part(self._condition_class(column_name, value))

        return self
""", """        parts = []
        if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
            parts, args = list(args), ()
            for item in parts:
                self.append_unique_part(item)
        for args_of_condition in parse_args(options, *args, **kwds):
            condition = self._condition_class(*args_of_condition)
            self.append_unique_part(condition)
        return self
"""),
("""        if not isinstance(value, relations._RelationValue):
            value_type = type(value.value if isinstance(value, SqlValue) else value)
            value = self._default_relations.get(value_type, relations.EQ)(value)
        self._value = value
""", """        self._value = value if isinstance(value, relations._RelationValue) else self._default_relation(value)

    def _default_relation(self, value):
        wrapped = value.value if isinstance(value, SqlValue) else value
        try:
            relation = self._default_relations[type(wrapped)]
        except KeyError:
            relation = relations.EQ
        return relation(value)
"""),
("""        return (
            type(self) == type(other) and
            is_same_value(self.column_name, other.column_name) and
            is_same_value(self.value, other.value) and
            self.relation == other.relation
        )
""", """        if type(self) != type(other) or self.relation != other.relation:
            return False
        pairs = ((self.column_name, other.column_name), (self.value, other.value))
        return all(is_same_value(mine, theirs) for mine, theirs in pairs)
"""),
],
'_queryparts/tables.py': [
("""        if isinstance(arg, (list, tuple)) and len(arg) == 2:
            table = Table(*arg)
        elif isinstance(arg, dict) and len(arg) == 1:
            table = Table(*next(iter(arg.items())))
        elif isinstance(arg, str):
            table = Table(arg)
        else:
            raise InvalidArgumentException('Invalid argument "{}" for join.'.format(arg))

        self._joins.append({
            'type': join_type,
            'table': table,
            'ons': OnConditions(),
        })
""", """        self._joins.append(dict(type=join_type, table=self._parse_join_table(arg), ons=OnConditions()))

    @staticmethod
    def _parse_join_table(arg):
        match arg:
            case str():
                return Table(arg)
            case [name, alias] if isinstance(arg, (list, tuple)):
                return Table(name, alias)
            case dict() if len(arg) == 1:
                [(name, alias)] = arg.items()
                return Table(name, alias)
            case _:
                raise InvalidArgumentException('Invalid argument "{}" for join.'.format(arg))
"""),
("""        if self.alias:
            table = '{} AS {}'.format(
                SqlReference(self.table_name),
                SqlReference(self.alias),
            )
        else:
            table = force_text(SqlReference(self.table_name))
""", """        table = force_text(SqlReference(self.table_name))
        if self.alias:
            table += ' AS ' + force_text(SqlReference(self.alias))
"""),
("""        options = {
            'max_items': 2,
            'allow_dict': True,
        }
        for table_name, as_ in parse_args(options, *args, **kwds):
            self.append_unique_part(Table(table_name, as_))

        return self
""", """        for name_and_alias in parse_args(dict(max_items=2, allow_dict=True), *args, **kwds):
            table = Table(*name_and_alias)
            if table in self:
                continue
            self.append_part(table)
        return self
"""),
("""        if self._parts:
            return self._parts[-1]
        raise InvalidQueryException('You can not do join to nothing. Specify table first.')
""", """        try:
            return self._parts[-1]
        except IndexError:
            raise InvalidQueryException('You can not do join to nothing. Specify table first.')
"""),
("""        value_transformer = SqlReference if isinstance(self.value, str) else SqlValue
        return self._value._format_condition(SqlReference(self.column_name), value_transformer=value_transformer)
""", """        def transform(value):
            if isinstance(self.value, str):
                return SqlReference(value)
            return SqlValue(value)
        return self.relation_instance._format_condition(SqlReference(self.column_name), value_transformer=transform)
"""),
],
'_queryparts/limit.py': [
("""        if limit is None:
            self._limit = None
            self._offset = None
        else:
            self._limit = self._get_int(limit)
            if offset is not None:
                self.offset(offset)
        return self
""", """        if limit is None:
            self._limit = self._offset = None
            return self
        self._limit = self._get_int(limit)
        return self if offset is None else self.offset(offset)
"""),
("""        self._offset = self._get_int(offset) if offset else None
        return self
""", """        if not offset:
            self._offset = None
        else:
            self._offset = self._get_int(offset)
        return self
"""),
("""        res = ''
        if self._limit is not None:
            res += 'LIMIT {}'.format(self._limit)
        if self._offset is not None:
            if res:
                res += ' '
            res += 'OFFSET {}'.format(self._offset)
        return res
""", """        parts = []
        if self._limit is not None:
            parts.append(f'LIMIT {self._limit}')
        if self._offset is not None:
            parts.append(f'OFFSET {self._offset}')
        return ' '.join(parts)
"""),
],
'_queryparts/columns.py': [
("""        if self.alias:
            return '{} AS {}'.format(
                SqlReference(self.column_name),
                SqlReference(self.alias),
            )
        return str(SqlReference(self.column_name))
""", """        names = [self.column_name]
        if self.alias:
            names.append(self.alias)
        return ' AS '.join(str(SqlReference(name)) for name in names)
"""),
("""            column = Column(column_name, alias)
            if self._allow_duplicates or column not in self:
                self.append_part(column)
""", """            append = self.append_part if self._allow_duplicates else self.append_unique_part
            append(Column(column_name, alias))
"""),
],
'_queries/query.py': [
("""        self._queryparts = OrderedDict([(key, cls()) for key, cls in sorted(self._queryparts.items())])
        for key, querypart in self._queryparts.items():
            setattr(self, '_{}'.format(key), querypart)
""", """        queryparts = OrderedDict()
        for key in sorted(self._queryparts):
            queryparts[key] = querypart = self._queryparts[key]()
            setattr(self, '_' + key, querypart)
        self._queryparts = queryparts
"""),
("""            is_set = getattr(querypart, 'is_set', True)
            if is_set:
                context[key] = ' ' + force_text(querypart)
            else:
                context[key] = ''
""", """            context[key] = ''
            if getattr(querypart, 'is_set', True):
                context[key] += ' ' + force_text(querypart)
"""),
],
'_queries/update.py': [
("""        if not self._where.is_set and not self._allow_update_all:
            raise ConfirmUpdateAllException()
        return super().__str__()
""", """        if self._where.is_set or self._allow_update_all:
            return super().__str__()
        raise ConfirmUpdateAllException()
"""),
],
'_queries/delete.py': [
("""        if not self._where.is_set and not self._allow_delete_all:
            raise ConfirmDeleteAllException()
        return super().__str__()
""", """        confirmed = self._allow_delete_all or self._where.is_set
        if not confirmed:
            raise ConfirmDeleteAllException()
        return Query.__str__(self)
"""),
("""    def from_tables(self, *args, **kwds):
        self.from_(*args, **kwds)
        return self
""", """    from_tables = from_
"""),
],
'_queries/union.py': [
("""        return (
            type(self) == type(other) and
            self.query1 == other.query1 and
            self.query2 == other.query2 and
            self.union_type == other.union_type
        )
""", """        if not isinstance(other, Union) or type(self) is not type(other):
            return False
        return (self.query1, self.union_type, self.query2) == (other.query1, other.union_type, other.query2)
"""),
],
'_queries/options.py': [
("""        return (
            type(self) == type(other)
            and len(self._options) == len(other._options)
            and all(bool(so == oo) for so, oo in zip(self._options.values(), other._options.values()))
        )
""", """        return type(self) == type(other) and self._options == other._options
"""),
("""        return any(item != 'off' for item in self._options.values())
""", """        return set(self._options.values()) != {'off'}
"""),
],
'_queries/selectoptions.py': [
("""        if self._for_update:
            return 'FOR UPDATE'
        return ''
""", """        return 'FOR UPDATE' if self.is_set else ''
"""),
],
'_queryparts/queryparts.py': [
("""        if not isinstance(other, QueryParts) or len(self._parts) != len(other._parts):
            return False
        return all(sp == op for sp, op in zip(self._parts, other._parts))
""", """        if not isinstance(other, QueryParts):
            return False
        mine, theirs = tuple(self._parts), tuple(other._parts)
        return len(mine) == len(theirs) and all(map(lambda pair: pair[0] == pair[1], zip(mine, theirs)))
"""),
("""        return bool(self._parts != [] or self._default_query_string)
""", """        return len(self._parts) > 0 or bool(self._default_query_string)
"""),
],
'_queryparts/values.py': [
("""        if not all(isinstance(value, Value) for value in values._parts):
            raise InvalidArgumentException('Row of values needs names of columns.')
        self.append_part(values)
        return self
""", """        for value in values._parts:
            if not isinstance(value, Value):
                raise InvalidArgumentException('Row of values needs names of columns.')
        self.append_part(values)
        return self
"""),
],
'_queryparts/functions.py': [
("""        if not expr:
            expr = '*'
        super().__init__(expr, distinct)
""", """        super().__init__(expr or '*', distinct)
"""),
("""        if self._order_by.is_set:
            return ' {}'.format(self._order_by)
        return ''
""", """        return ' ' + str(self._order_by) if self._order_by.is_set else ''
"""),
("""        if self._separator is not None:
            return ' SEPARATOR %s' % SqlValue(self._separator)
        return ''
""", """        return '' if self._separator is None else f' SEPARATOR {SqlValue(self._separator)}'
"""),
],
'_backends/__init__.py': [
("""    new_backend = BACKENDS.get(str(database).lower())
    if not new_backend:
        raise InvalidArgumentException('Backend {} is not supported.'.format(database))
    global BACKEND  # pylint: disable=global-statement
    BACKEND = new_backend
""", """    global BACKEND  # pylint: disable=global-statement
    name = str(database).lower()
    if name not in BACKENDS:
        raise InvalidArgumentException('Backend {} is not supported.'.format(database))
    BACKEND = BACKENDS[name]
"""),
],
}
