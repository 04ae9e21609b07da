"""Behaviour-preserving rewrites, group 2: restructuring (tables of types, records instead of dicts, generated methods)."""
SV = '''import datetime
import decimal
import re
import types
from functools import lru_cache

from sqlpuzzle.exceptions import InvalidArgumentException
from sqlpuzzle._backends import get_backend
from .object import Object
from .utils import force_text, is_sql_instance

__all__ = ('SqlValue', 'SqlReference')

_SPECIAL_CHARS = {'\\\\': '\\\\\\\\', "'": "''", '\\n': '\\\\n'}
_SPECIAL_CHARS_RE = re.compile('[' + re.escape(''.join(_SPECIAL_CHARS)) + ']')


def _escape_value(value):
    return _SPECIAL_CHARS_RE.sub(lambda match: _SPECIAL_CHARS[match.group(0)], value)


@lru_cache(maxsize=None)
def _query_types():
    from sqlpuzzle._queries import Select, Union
    return Select, Union


class SqlValue(Object):
    _converters = (
        (str, '_string'),
        (int, '_integer'),
        ((float, decimal.Decimal), '_float'),
        (bytes, '_bytes'),
        (datetime.datetime, '_datetime'),
        (datetime.date, '_date'),
        ((list, tuple, set, frozenset, range, types.GeneratorType), '_list'),
        (type(None), '_null'),
    )

    def __init__(self, value):
        # Generators give value only once and they can not be copied.
        self.value = list(value) if isinstance(value, types.GeneratorType) else value

    def __str__(self):
        return self._get_convert_method()()

    def _get_convert_method(self):
        """
        Get right method to convert of the value.
        """
        value = self.value
        if value is True or value is False:
            return self._bool_method()
        for types_, name in self._converters:
            if isinstance(value, types_):
                return getattr(self, name)
        if isinstance(value, _query_types()):
            return self._subselect
        if is_sql_instance(value):
            return self._raw
        return self._undefined

    def _bool_method(self):
        return self._boolean

    def _raw(self):
        return force_text(self.value)

    def _string(self):
        # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
        text = self.value
        backend = get_backend()
        if backend.is_reference(text):
            return backend.reference(text.strip())
        return self._quoted(_escape_value(force_text(text)))

    @staticmethod
    def _quoted(text):
        return "'%s'" % text

    def _bytes(self):
        return get_backend().bytes(self.value)

    def _integer(self):
        return '%d' % self.value

    def _float(self):
        return format(self.value, '.5f')

    def _boolean(self):
        return get_backend().boolean(self.value)

    def _date(self):
        return self._quoted(self.value.isoformat())

    _datetime = _date

    def _list(self):
        if not self.value:
            raise InvalidArgumentException('Empty list is not allowed.')
        return '(' + ', '.join([SqlValue(item).tosql() for item in self.value]) + ')'

    def _subselect(self):
        return '(' + str(self.value) + ')'

    def _null(self):
        return 'NULL'

    def _undefined(self):
        raise InvalidArgumentException('Value cannot be of type {}.'.format(type(self.value)))

    def _reference(self):
        return get_backend().reference(self.value)


class SqlReference(SqlValue):
    _converters = (
        (str, '_reference'),
        (int, '_integer'),
    )

    # pylint: disable=super-init-not-called
    def __init__(self, value):
        self.value = value

    def _bool_method(self):
        return self._undefined
'''
AP = '''from collections import OrderedDict

from sqlpuzzle.exceptions import InvalidArgumentException
from .utils import force_text

__all__ = ('parse_args',)

_SEQUENCES = (list, tuple)


# pylint: disable=dangerous-default-value,keyword-arg-before-vararg
def parse_args(options={}, *args, **kwds):
    min_items = options.get('min_items', 1)
    max_items = options.get('max_items', 1)
    allow_dict = options.get('allow_dict', False)
    allow_list = options.get('allow_list', False)
    assert min_items <= max_items
    assert not allow_dict or max_items > 1

    def batch(item):
        if len(item) < min_items:
            raise InvalidArgumentException('Too few arguments.')
        if len(item) > max_items:
            raise InvalidArgumentException('Too many arguments.')
        result = [None] * max_items
        result[:len(item)] = item
        return tuple(result)

    return [batch(item) for item in _iter_items(args, kwds, min_items, max_items, allow_dict, allow_list)]


def _iter_items(args, kwds, min_items, max_items, allow_dict, allow_list):
    only = args[0] if len(args) == 1 else None
    dictionary = only if isinstance(only, dict) else None

    if args and min_items > 1 and min_items <= len(args) <= max_items and not isinstance(args[0], _SEQUENCES):
        yield args
    elif allow_list and isinstance(only, _SEQUENCES):
        yield from _iter_list(only, min_items)
    elif dictionary is None:
        yield from _iter_list(args, min_items)

    dictionaries = [d for d in (dictionary, kwds or None) if d is not None]
    if dictionaries and not allow_dict:
        raise InvalidArgumentException('Dictionary or kwds is disabled.')
    for mapping in dictionaries:
        yield from _iter_dictionary(mapping)


def _iter_list(items, min_items):
    for item in items:
        if isinstance(item, _SEQUENCES):
            yield item
        elif min_items == 1:
            yield (item,)
        else:
            raise InvalidArgumentException('Too few arguments.')


def _iter_dictionary(dictionary):
    if isinstance(dictionary, OrderedDict):
        return list(dictionary.items())
    return sorted(dictionary.items(), key=_get_sort_key)


def _get_sort_key(item):
    key = item[0]
    return (0, key, '') if isinstance(key, int) else (1, 0, force_text(key))
'''
OBJ = '''import copy
import operator

__all__ = ('Object',)


def _compare(name):
    compare = getattr(operator, name)
    slot = '__{}__'.format(name)

    def method(self, other):
        if isinstance(other, Object):
            other = str(other)
        if not isinstance(other, str):
            return getattr(object, slot)(self, other)
        return compare(str(self), other)
    method.__name__ = slot
    return method


class Object:
    __eq__ = _compare('eq')
    __lt__ = _compare('lt')

    def __le__(self, other):
        less = self.__lt__(other)
        return less if less is NotImplemented else less or self == other

    def __gt__(self, other):
        less = self.__lt__(other)
        return less if less is NotImplemented else not less and self != other

    def __ge__(self, other):
        less = self.__lt__(other)
        return less if less is NotImplemented else not less

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '<%s: %s>' % (type(self).__name__, self)

    def __str__(self):
        return '<Object>'

    def tosql(self):
        return str(self)

    def copy(self):
        return copy.deepcopy(self)
'''
BK = '''from sqlpuzzle.exceptions import InvalidArgumentException
from .mysql import MySqlBackend
from .postgresql import PostgreSqlBackend
from .sql import SqlBackend
from .sqlite import SqliteBackend

__all__ = ('set_backend', 'get_backend',)


class _State:
    def __init__(self, backend):
        self.backend = backend


_STATE = _State(SqlBackend)

BACKENDS = {
    backend.name.lower(): backend
    for backend in (SqlBackend, MySqlBackend, PostgreSqlBackend, SqliteBackend)
}


def set_backend(database):
    """
    Configure used database, so sqlpuzzle can generate queries which are needed.
    """
    try:
        _STATE.backend = BACKENDS[str(database).lower()]
    except KeyError:
        raise InvalidArgumentException('Backend {} is not supported.'.format(database)) from None


def get_backend():
    """
    Get backend which is used right now.
    """
    return _STATE.backend
'''
EDITS = {
'_common/sqlvalue.py': SV,
'_common/argsparser.py': AP,
'_common/object.py': OBJ,
'_backends/__init__.py': BK,
'_backends/sql.py': [
("""        from sqlpuzzle._common.utils import force_text
        value = force_text(value)
        quote = cls.reference_quote
        parts = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\\.'.format(quote=quote), value)
        # Odd parts were already quoted (and escaped) in the value.
        parts = [part if i % 2 else part and part.replace(quote, quote * 2) for i, part in enumerate(parts)]
        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
        return '.'.join(parts)
""", """        from sqlpuzzle._common.utils import force_text
        quote = cls.reference_quote
        pieces = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\\.'.format(quote=quote), force_text(value))
        names = []
        # Odd pieces were already quoted (and escaped) in the value.
        for position in range(len(pieces)):
            piece = pieces[position]
            if piece:
                escaped = piece if position % 2 == 1 else piece.replace(quote, 2 * quote)
                names.append('*' if escaped == '*' else quote + escaped + quote)
        return '.'.join(names)
"""),
("        return '{:d}'.format(value)\n", "        return str(int(value))\n"),
],
'_queryparts/tables.py': [
("""import sqlpuzzle
from sqlpuzzle._backends""", """from collections import namedtuple

import sqlpuzzle
from sqlpuzzle._backends"""),
("""class OnCondition(""", """Join = namedtuple('Join', ('type', 'table', 'ons'))


class OnCondition("""),
("""        if self._joins:
            table += ' ' + ' '.join(
                '{} {}{}'.format(
                    JOIN_TYPES[join['type']],
                    join['table'],
                    ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
                ) for join in self._get_minimized_joins()
            )

        return table
""", """        for join in self._get_minimized_joins():
            table += ' {} {}'.format(JOIN_TYPES[join.type], join.table)
            if join.ons.is_set:
                table += ' ON {}'.format(join.ons)
        return table
"""),
("""        self._joins.append({
            'type': join_type,
            'table': table,
            'ons': OnConditions(),
        })
""", """        self._joins.append(Join(join_type, table, OnConditions()))
"""),
("self._joins[-1]['ons'].where", "self._joins[-1].ons.where"),
("""        joins_group = []
        for join in self._joins:
            append_new = True
            for join_group in joins_group:
                if join_group[0]['table'] == join['table'] and join_group[0]['ons'] == join['ons']:
                    join_group.append(join)
                    append_new = False
                    break
            if append_new:
                joins_group.append([join])

        minimized_joins = []
        for joins in joins_group:
            if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
            elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
                minimized_joins.append(joins[0])
            else:
                minimized_joins.extend(joins)
        return minimized_joins
""", """        groups = []
        for join in self._joins:
            same = [group for group in groups if group[0].table == join.table and group[0].ons == join.ons]
            if same:
                same[0].append(join)
            else:
                groups.append([join])

        result = []
        for group in groups:
            kinds = {join.type for join in group}
            if len(kinds) == 1:
                result.append(group[0])
            elif INNER_JOIN in kinds:
                result.append(group[0]._replace(type=INNER_JOIN))
            else:
                result.extend(group)
        return result
"""),
("""    def inner_join(self, arg):
        self.last_table().join(arg, INNER_JOIN)
        return self

    def left_join(self, arg):
        self.last_table().join(arg, LEFT_JOIN)
        return self

    def right_join(self, arg):
        self.last_table().join(arg, RIGHT_JOIN)
        return self
""", """    def _join(self, arg, join_type):
        self.last_table().join(arg, join_type)
        return self

    def inner_join(self, arg):
        return self._join(arg, INNER_JOIN)

    def left_join(self, arg):
        return self._join(arg, LEFT_JOIN)

    def right_join(self, arg):
        return self._join(arg, RIGHT_JOIN)
"""),
("""        self.last_table().join(arg, FULL_JOIN)
        return self
""", """        return self._join(arg, FULL_JOIN)
"""),
],
'_queries/selectoptions.py': [
("""    def sql_cache(self, allow=True):
        self._options['sql_cache'] = 'cache' if allow else 'off'

    def sql_no_cache(self, allow=True):
        self._options['sql_cache'] = 'no_cache' if allow else 'off'

    def all(self, allow=True):
        self._options['duplicated'] = 'all' if allow else 'off'

    def distinct(self, allow=True):
        self._options['duplicated'] = 'distinct' if allow else 'off'

    def distinctrow(self, allow=True):
        self._options['duplicated'] = 'distinctrow' if allow else 'off'

    def sql_small_result(self, allow=True):
        self._options['sql_small_result'] = 'on' if allow else 'off'

    def sql_big_result(self, allow=True):
        self._options['sql_big_result'] = 'on' if allow else 'off'

    def sql_buffer_result(self, allow=True):
        self._options['sql_buffer_result'] = 'on' if allow else 'off'

    def sql_calc_found_rows(self, allow=True):
        self._options['sql_calc_found_rows'] = 'on' if allow else 'off'

    def straight_join(self, allow=True):
        self._options['straight_join'] = 'on' if allow else 'off'

    def high_priority(self, allow=True):
        self._options['high_priority'] = 'on' if allow else 'off'
""", """    sql_cache = _switch('sql_cache', 'cache')
    sql_no_cache = _switch('sql_cache', 'no_cache')
    all = _switch('duplicated', 'all')
    distinct = _switch('duplicated', 'distinct')
    distinctrow = _switch('duplicated', 'distinctrow')
    sql_small_result = _switch('sql_small_result')
    sql_big_result = _switch('sql_big_result')
    sql_buffer_result = _switch('sql_buffer_result')
    sql_calc_found_rows = _switch('sql_calc_found_rows')
    straight_join = _switch('straight_join')
    high_priority = _switch('high_priority')
"""),
("""class SelectOptions(Options):""", """def _switch(key, state='on'):
    def method(self, allow=True):
        self._options[key] = state if allow else 'off'
    return method


class SelectOptions(Options):"""),
],
'_queries/select.py': [
("""    def join(self, table):
        self._tables.join(table)
        return self

    def inner_join(self, table):
        self._tables.inner_join(table)
        return self

    def left_join(self, table):
        self._tables.left_join(table)
        return self

    def right_join(self, table):
        self._tables.right_join(table)
        return self
""", """    join = delegate('_tables', 'join')
    inner_join = delegate('_tables', 'inner_join')
    left_join = delegate('_tables', 'left_join')
    right_join = delegate('_tables', 'right_join')
"""),
("""# pylint: disable=too-many-public-methods
""", """def delegate(part, name):
    def method(self, *args, **kwds):
        getattr(getattr(self, part), name)(*args, **kwds)
        return self
    method.__name__ = name
    return method


# pylint: disable=too-many-public-methods
"""),
],
'_queryparts/order.py': [
("""        for order in self._parts:
            if is_same_value(order.column_name, column_name):
                return order
        return None
""", """        matching = (order for order in self._parts if is_same_value(order.column_name, column_name))
        return next(matching, None)
"""),
("""        for column_name, sort in parse_args(options, *args, **kwds):
            order = self._find_order_by_column_name(column_name)
            if order is None:
                order = Order(column_name, sort)
                self.append_part(order)
            else:
                order.sort = sort
""", """        for column_name, sort in parse_args(options, *args, **kwds):
            existing = self._find_order_by_column_name(column_name)
            if existing is not None:
                existing.sort = sort
                continue
            self.append_part(Order(column_name, sort))
"""),
("""        if sort is None:
            sort = ASC
        sort = force_text(sort).upper()
        if sort not in (ASC, DESC):
            raise InvalidArgumentException('Type of order can be only {} or {}.'.format(ASC, DESC))
        self._sort = sort
""", """        normalized = ASC if sort is None else force_text(sort).upper()
        if normalized == ASC or normalized == DESC:
            self._sort = normalized
        else:
            raise InvalidArgumentException('Type of order can be only {} or {}.'.format(ASC, DESC))
"""),
],
'_queryparts/functions.py': [
("""class Max(FunctionWithDistinct):
    _function_name = 'MAX'


class Min(FunctionWithDistinct):
    _function_name = 'MIN'


class Sum(FunctionWithDistinct):
    _function_name = 'SUM'
""", """Max = type('Max', (FunctionWithDistinct,), {'_function_name': 'MAX', '__module__': __name__})
Min = type('Min', (FunctionWithDistinct,), {'_function_name': 'MIN', '__module__': __name__})
Sum = type('Sum', (FunctionWithDistinct,), {'_function_name': 'SUM', '__module__': __name__})
"""),
("""        self._type = None
        if type_:
            self.to(type_)
""", """        if type_:
            self.to(type_)
        else:
            self._type = None
"""),
],
'_queryparts/values.py': [
("""        columns = set()
        for values in self._parts:
            for value in values._parts:
                columns.add(value.column_name)
        return sorted(columns)
""", """        columns = set()
        for values in self._parts:
            columns.update(value.column_name for value in values._parts)
        return sorted(columns)
"""),
("""            map_of_col_to_val = dict((value.column_name, value) for value in values)
            values = [map_of_col_to_val.get(column, None) for column in column_order]
        return ', '.join(str(SqlValue(value.value if value else None)) for value in values)
""", """            by_name = {value.column_name: value for value in values}
            values = map(by_name.get, column_order)
        texts = []
        for value in values:
            raw = value.value if value else None
            texts.append(str(SqlValue(raw)))
        return ', '.join(texts)
"""),
],
'_queries/insert.py': [
("""        if not (
                backend.supports_on_duplicate_key_update
                or backend.supports_on_conflict_do_update
                or backend.supports_replace_into
        ):
            raise InvalidQueryException('Backend {} does not support on_duplicate_key_update.'.format(backend.name))
""", """        supported = (
            backend.supports_on_duplicate_key_update,
            backend.supports_on_conflict_do_update,
            backend.supports_replace_into,
        )
        if not any(supported):
            raise InvalidQueryException('Backend {} does not support on_duplicate_key_update.'.format(backend.name))
"""),
("self._queryparts['keyword'].replace()", "self._keyword.replace()"),
],
'relations.py': [
("""        if (
                not is_sql_instance(value)
                and (
                    (bool not in self._allowed_types and isinstance(value, bool))
                    or not isinstance(value, self._allowed_types)
                )
        ):
            raise""", """        if is_sql_instance(value):
            return
        allowed = isinstance(value, self._allowed_types)
        if isinstance(value, bool):
            allowed = allowed and bool in self._allowed_types
        if not allowed:
            raise"""),
("""        return '{col} {rel} {val}'.format(
            col=column,
            rel=self.relation,
            val=value_transformer(self.value),
        )
""", """        return ' '.join((str(column), self.relation, str(value_transformer(self.value))))
"""),
],
}
