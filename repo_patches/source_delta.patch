From 4e2732282dbdeec67bcf460622a1d2084d8a77c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:35 +0000
Subject: [PATCH 01/27] fix: join() must not empty the dictionary passed by the
 caller

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 7637d5a..4f1ce47 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -123,7 +123,7 @@ class Table(QueryPart):
         if isinstance(arg, (list, tuple)) and len(arg) == 2:
             table = Table(*arg)
         elif isinstance(arg, dict) and len(arg) == 1:
-            table = Table(*arg.popitem())
+            table = Table(*next(iter(arg.items())))
         elif isinstance(arg, str):
             table = Table(arg)
         else:
-- 
2.43.0


From 78293422076beb0d4f9fc4764fd9a26437085c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:38 +0000
Subject: [PATCH 02/27] fix: rendering must not merge joins of the query for
 good

---
 sqlpuzzle/_queryparts/tables.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 4f1ce47..039c473 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -78,13 +78,12 @@ class Table(QueryPart):
             table = force_text(SqlReference(self.table_name))
 
         if self._joins:
-            self._minimize_joins()
             table += ' ' + ' '.join(
                 '{} {}{}'.format(
                     JOIN_TYPES[join['type']],
                     join['table'],
                     ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
-                ) for join in self._joins
+                ) for join in self._get_minimized_joins()
             )
 
         return table
@@ -140,9 +139,9 @@ class Table(QueryPart):
             raise InvalidQueryException('You can not set join condition to nothing. Specify join table first.')
         self._joins[-1]['ons'].where(*args, **kwds)
 
-    def _minimize_joins(self):
+    def _get_minimized_joins(self):
         """
-        Minimizing of joins.
+        Minimizing of joins. Query itself is not changed by that.
         Left/right and inner join of the same condition is only inner join.
         """
         joins_group = []
@@ -156,15 +155,15 @@ class Table(QueryPart):
             if append_new:
                 joins_group.append([join])
 
-        self._joins = []
+        minimized_joins = []
         for joins in joins_group:
             if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
-                joins[0]['type'] = INNER_JOIN
-                self._joins.append(joins[0])
+                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
             elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
-                self._joins.append(joins[0])
+                minimized_joins.append(joins[0])
             else:
-                self._joins.extend(joins)
+                minimized_joins.extend(joins)
+        return minimized_joins
 
 
 class Tables(QueryParts):
-- 
2.43.0


From 7b3d45f8708d45e71f5d3222fa46158c2ee4d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:41 +0000
Subject: [PATCH 03/27] fix: generator in sqlvalue was consumed by the first
 rendering

---
 sqlpuzzle/_common/sqlvalue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 9332a8b..b6fe748 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -59,6 +59,9 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
+        # Generators give value only once and they can not be copied.
+        if isinstance(value, types.GeneratorType):
+            value = list(value)
         self.value = value
 
     def __str__(self):
-- 
2.43.0


From 705f628c0e775d61223bb2df556dde76e71e4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 04/27] fix: escape quote character inside of references

---
 sqlpuzzle/_backends/sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 70bca71..e7b259d 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -39,7 +39,10 @@ class SqlBackend:
         """
         from sqlpuzzle._common.utils import force_text
         value = force_text(value)
-        parts = re.split(r'{quote}([^{quote}]+){quote}|\.'.format(quote=cls.reference_quote), value)
+        quote = cls.reference_quote
+        parts = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\.'.format(quote=quote), value)
+        # Odd parts were already quoted (and escaped) in the value.
+        parts = [part if i % 2 else part and part.replace(quote, quote * 2) for i, part in enumerate(parts)]
         parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
         return '.'.join(parts)
 
-- 
2.43.0


From a7928f9f5ca09545dc0be1a58f991f3df172c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:47 +0000
Subject: [PATCH 05/27] fix: reference given as value with spaces around was
 split to more parts

---
 sqlpuzzle/_common/sqlvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index b6fe748..f78dbc1 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -87,7 +87,7 @@ class SqlValue(Object):
     def _string(self):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
-            return self._reference()
+            return get_backend().reference(self.value.strip())
         return "'{}'".format(_escape_value(force_text(self.value)))
 
     def _bytes(self):
-- 
2.43.0


From 5968be5853ae8f252ae2e9f497a9623de5c6d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:49 +0000
Subject: [PATCH 06/27] fix: keyword arguments passed next to dictionary were
 dropped

---
 sqlpuzzle/_common/argsparser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 98ca9c5..7edfcce 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -66,12 +66,11 @@ class ParserInput:
         return []
 
     @property
-    def dictionary_or_kwds(self):
+    def dictionaries(self):
         if self.is_dictionary:
-            return self.args[0]
+            yield self.args[0]
         if self.is_kwds:
-            return self.kwds
-        return {}
+            yield self.kwds
 
     @property
     def is_list(self):
@@ -116,7 +115,8 @@ class Parser:
         if self.input_data.is_dictionary or self.input_data.is_kwds:
             if not self.options.allow_dict:
                 raise InvalidArgumentException('Dictionary or kwds is disabled.')
-            self._parse_dictionary(self.input_data.dictionary_or_kwds)
+            for dictionary in self.input_data.dictionaries:
+                self._parse_dictionary(dictionary)
 
     def _parse_dictionary(self, dictionary):
         for item in sorted(dictionary.items()):
-- 
2.43.0


From 71d3db43e9a8146acf935fe2feee35619f0028ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:51 +0000
Subject: [PATCH 07/27] fix: keyword arguments passed next to Q objects were
 dropped

---
 sqlpuzzle/_queryparts/conditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8a7a494..9a1ae9d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -109,9 +109,9 @@ class Conditions(BinaryOperationMixin, QueryParts):
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
             for item in args:
                 self.append_unique_part(item)
-        else:
-            for column_name, value in parse_args(options, *args, **kwds):
-                self.append_unique_part(self._condition_class(column_name, value))
+            args = ()
+        for column_name, value in parse_args(options, *args, **kwds):
+            self.append_unique_part(self._condition_class(column_name, value))
 
         return self
 
-- 
2.43.0


From 9fdc6fcc6390ab7d92ffddcaf2c8bfa588ac8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:53 +0000
Subject: [PATCH 08/27] fix: refuse items with too few values

---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 7edfcce..1524e6c 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -136,6 +136,8 @@ class Parser:
         self.output_data.append(batch)
 
     def _create_batch(self, values):
+        if len(values) < self.options.min_items:
+            raise InvalidArgumentException('Too few arguments.')
         if len(values) > self.options.max_items:
             raise InvalidArgumentException('Too many arguments.')
         return self._append_nones(tuple(values))
-- 
2.43.0


From ac480443445e64c082257881ab4987a79ea95c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 09/27] fix: sort of order passed as int or SQL object raised
 AttributeError

---
 sqlpuzzle/_queryparts/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index afac74f..0b7d10e 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -48,7 +48,7 @@ class Order(QueryPart):
     def sort(self, sort):
         if sort is None:
             sort = ASC
-        sort = sort.upper()
+        sort = force_text(sort).upper()
         if sort not in (ASC, DESC):
             raise InvalidArgumentException('Type of order can be only {} or {}.'.format(ASC, DESC))
         self._sort = sort
-- 
2.43.0


From 4a39aa2696015195840c7446f4efd63500722706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:57 +0000
Subject: [PATCH 10/27] fix: raise library exceptions instead of bare Exception

---
 sqlpuzzle/_backends/__init__.py | 5 +++--
 sqlpuzzle/_queries/insert.py    | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_backends/__init__.py b/sqlpuzzle/_backends/__init__.py
index f0bb4b2..b84e9e2 100644
--- a/sqlpuzzle/_backends/__init__.py
+++ b/sqlpuzzle/_backends/__init__.py
@@ -1,3 +1,4 @@
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .mysql import MySqlBackend
 from .postgresql import PostgreSqlBackend
 from .sql import SqlBackend
@@ -21,9 +22,9 @@ def set_backend(database):
     Configure used database, so sqlpuzzle can generate queries which are needed.
     For now there is only support of MySQL and PostgreSQL.
     """
-    new_backend = BACKENDS.get(database.lower())
+    new_backend = BACKENDS.get(str(database).lower())
     if not new_backend:
-        raise Exception('Backend {} is not supported.'.format(database))
+        raise InvalidArgumentException('Backend {} is not supported.'.format(database))
     global BACKEND  # pylint: disable=global-statement
     BACKEND = new_backend
 
diff --git a/sqlpuzzle/_queries/insert.py b/sqlpuzzle/_queries/insert.py
index 742bfdf..e4f5893 100644
--- a/sqlpuzzle/_queries/insert.py
+++ b/sqlpuzzle/_queries/insert.py
@@ -1,3 +1,4 @@
+from sqlpuzzle.exceptions import InvalidQueryException
 from sqlpuzzle._backends import get_backend
 from sqlpuzzle._queries.options import Options
 from sqlpuzzle._queryparts import Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
@@ -75,7 +76,7 @@ class Insert(Query):
             self._on_conflict_do_update.set(*args, **kwds)
         if backend.supports_replace_into:
             if args or kwds:
-                raise Exception(
+                raise InvalidQueryException(
                     'No argument for on_duplicate_key_update for backend {} is supported'.format(
                         backend.name
                     )
-- 
2.43.0


From 168304c1ef11000ea01d41794343ea677caf1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:00 +0000
Subject: [PATCH 11/27] fix: on_duplicate_key_update was silently ignored by
 backend without such feature

---
 sqlpuzzle/_queries/insert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlpuzzle/_queries/insert.py b/sqlpuzzle/_queries/insert.py
index e4f5893..7bee90c 100644
--- a/sqlpuzzle/_queries/insert.py
+++ b/sqlpuzzle/_queries/insert.py
@@ -70,6 +70,12 @@ class Insert(Query):
 
     def on_duplicate_key_update(self, *args, **kwds):
         backend = get_backend()
+        if not (
+                backend.supports_on_duplicate_key_update
+                or backend.supports_on_conflict_do_update
+                or backend.supports_replace_into
+        ):
+            raise InvalidQueryException('Backend {} does not support on_duplicate_key_update.'.format(backend.name))
         if backend.supports_on_duplicate_key_update:
             self._on_duplicate_key_update.set(*args, **kwds)
         if backend.supports_on_conflict_do_update:
-- 
2.43.0


From 491a5e9766d76a981277ce844c3673865cf21bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:02 +0000
Subject: [PATCH 12/27] fix: union was not hashable

---
 sqlpuzzle/_queries/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 4904004..314e8c5 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -45,6 +45,8 @@ class Union(Query):
             self.union_type == other.union_type
         )
 
+    __hash__ = Query.__hash__
+
     def __and__(self, other):
         """
         Returns :py:class:`sqlpuzzle._queries.union.Union` instance, ``UNION ALL``.
-- 
2.43.0


From 1900e067090263472684cf0ebaef0a4f9f01b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 13/27] fix: ON CONFLICT with different targets were equal

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 9e19617..7c8ea12 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -10,6 +10,13 @@ class OnConflictDoUpdate(Values):
         super().__init__(*args, **kwds)
         self._on_conflict = ''
 
+    def __eq__(self, other):
+        return (
+            type(self) == type(other) and
+            self._on_conflict == other._on_conflict and
+            super().__eq__(other)
+        )
+
     @property
     def _keyword_of_parts(self):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
-- 
2.43.0


From 5deb6a15b0b080c30993a1400a898229bc0f364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:07 +0000
Subject: [PATCH 14/27] fix: has() interpreted looked up value as regular
 expression

---
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 76f2ef8..9d0a493 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -21,7 +21,7 @@ def has(part, value):
     value = force_text(value)
     #  If I look for example for "distinct", I don't want to say "hey, there is
     #+ distinct!", if there is actually "distinctrow".
-    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(value), str(part))
+    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(re.escape(value)), str(part))
     return bool(res)
 
 
-- 
2.43.0


From 94ae54c50034e5533e1b054893a5a63e5cec2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:09 +0000
Subject: [PATCH 15/27] fix: has('keyword') of insert raised AttributeError

---
 sqlpuzzle/_queries/insert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queries/insert.py b/sqlpuzzle/_queries/insert.py
index 7bee90c..f27b97f 100644
--- a/sqlpuzzle/_queries/insert.py
+++ b/sqlpuzzle/_queries/insert.py
@@ -1,14 +1,15 @@
 from sqlpuzzle.exceptions import InvalidQueryException
 from sqlpuzzle._backends import get_backend
 from sqlpuzzle._queries.options import Options
-from sqlpuzzle._queryparts import Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
+from sqlpuzzle._queryparts import QueryPart, Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
 from .query import Query
 
 __all__ = ('Insert',)
 
 
-class InsertKeyword:
+class InsertKeyword(QueryPart):
     def __init__(self):
+        super().__init__()
         self._is_replace = False
 
     def __str__(self):
-- 
2.43.0


From 7e805d9881c5af40738de87d5a84d2ee63626b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:11 +0000
Subject: [PATCH 16/27] fix: keep order of OrderedDict as documented and sort
 keys of different types

---
 sqlpuzzle/_common/argsparser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 1524e6c..b49abf4 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -1,4 +1,7 @@
+from collections import OrderedDict
+
 from sqlpuzzle.exceptions import InvalidArgumentException
+from .utils import force_text
 
 __all__ = ('parse_args',)
 
@@ -119,9 +122,19 @@ class Parser:
                 self._parse_dictionary(dictionary)
 
     def _parse_dictionary(self, dictionary):
-        for item in sorted(dictionary.items()):
+        items = dictionary.items()
+        if not isinstance(dictionary, OrderedDict):
+            items = sorted(items, key=self._get_sort_key)
+        for item in items:
             self._parse_item(item)
 
+    @staticmethod
+    def _get_sort_key(item):
+        key = item[0]
+        if isinstance(key, int):
+            return (0, key, '')
+        return (1, 0, force_text(key))
+
     def _parse_list(self, list_):
         for item in list_:
             if isinstance(item, (list, tuple)):
-- 
2.43.0


From ff7ab0c377e5c9d53934e0c18bc06ff8df5d5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:14 +0000
Subject: [PATCH 17/27] fix: values equal in Python but different in SQL were
 considered as duplicates

---
 sqlpuzzle/_common/__init__.py       |  2 +-
 sqlpuzzle/_common/utils.py          | 15 ++++++++++++++-
 sqlpuzzle/_queryparts/columns.py    |  6 +++---
 sqlpuzzle/_queryparts/conditions.py |  6 +++---
 sqlpuzzle/_queryparts/order.py      |  6 +++---
 sqlpuzzle/_queryparts/tables.py     | 10 +++++-----
 sqlpuzzle/_queryparts/values.py     |  6 +++---
 7 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/sqlpuzzle/_common/__init__.py b/sqlpuzzle/_common/__init__.py
index c23346c..69567df 100644
--- a/sqlpuzzle/_common/__init__.py
+++ b/sqlpuzzle/_common/__init__.py
@@ -2,4 +2,4 @@ from .argsparser import parse_args
 from .customsql import CustomSql
 from .object import Object
 from .sqlvalue import SqlValue, SqlReference
-from .utils import force_text, is_sql_instance, check_type_decorator
+from .utils import force_text, is_sql_instance, is_same_value, check_type_decorator
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 9a8275c..dbe918f 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -2,7 +2,7 @@ from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_sql_instance', 'check_type_decorator')
+__all__ = ('force_text', 'is_sql_instance', 'is_same_value', 'check_type_decorator')
 
 
 def force_text(value):
@@ -15,6 +15,19 @@ def is_sql_instance(value):
     return hasattr(value, 'tosql')
 
 
+def is_same_value(value1, value2):
+    """
+    Stricter comparison than ``==`` because for example ``1``, ``1.0`` and
+    ``True``, or string and custom SQL with the same text, are equal in Python
+    but they are not the same thing in SQL.
+    """
+    if type(value1) != type(value2):
+        return False
+    if isinstance(value1, (list, tuple)):
+        return len(value1) == len(value2) and all(map(is_same_value, value1, value2))
+    return value1 == value2
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 1def7d5..27e6bd7 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, is_same_value, parse_args
 from .queryparts import QueryPart, QueryParts
 
 __all__ = ('Column', 'Columns')
@@ -21,8 +21,8 @@ class Column(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.alias == other.alias
+            is_same_value(self.column_name, other.column_name) and
+            is_same_value(self.alias, other.alias)
         )
 
     @property
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 9a1ae9d..2e45d06 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -2,7 +2,7 @@ import datetime
 import decimal
 import types
 
-from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, is_same_value, parse_args
 from sqlpuzzle import relations
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
@@ -52,8 +52,8 @@ class Condition(BinaryOperationMixin, QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value and
+            is_same_value(self.column_name, other.column_name) and
+            is_same_value(self.value, other.value) and
             self.relation == other.relation
         )
 
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 0b7d10e..1d04004 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, force_text, is_same_value, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -26,7 +26,7 @@ class Order(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
+            is_same_value(self.column_name, other.column_name) and
             self.sort == other.sort
         )
 
@@ -72,6 +72,6 @@ class Orders(QueryParts):
 
     def _find_order_by_column_name(self, column_name):
         for order in self._parts:
-            if order.column_name == column_name:
+            if is_same_value(order.column_name, column_name):
                 return order
         return None
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 039c473..0f9321c 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -1,6 +1,6 @@
 import sqlpuzzle
 from sqlpuzzle._backends import get_backend
-from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, is_same_value, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
 from .queryparts import QueryPart, QueryParts
 from .conditions import Condition, Conditions
@@ -47,8 +47,8 @@ class OnCondition(Condition):
         return (
             type(self) == type(other)
             and isinstance(self.value, str)
-            and self.value == other.column_name
-            and self.column_name == other.value
+            and is_same_value(self.value, other.column_name)
+            and is_same_value(self.column_name, other.value)
             and revert_relation == type(other.relation_instance)
         )
 
@@ -91,8 +91,8 @@ class Table(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.table_name == other.table_name and
-            self.alias == other.alias and
+            is_same_value(self.table_name, other.table_name) and
+            is_same_value(self.alias, other.alias) and
             self._joins == other._joins
         )
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index c3bb2e0..506feee 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -1,7 +1,7 @@
 import datetime
 import decimal
 
-from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, is_same_value, parse_args
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -20,8 +20,8 @@ class Value(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value
+            is_same_value(self.column_name, other.column_name) and
+            is_same_value(self.value, other.value)
         )
 
     @property
-- 
2.43.0


From 8b4249c32d56b0612c5bdc8e303a97541079a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:17 +0000
Subject: [PATCH 18/27] fix: empty Q object counted as condition

---
 sqlpuzzle/_queryparts/conditions.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 2e45d06..d4a432e 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -4,12 +4,17 @@ import types
 
 from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, is_same_value, parse_args
 from sqlpuzzle import relations
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 __all__ = ('Condition', 'Conditions', 'Not')
 
 
+def _is_empty(value):
+    return isinstance(value, Conditions) and not value.is_set
+
+
 class BinaryOperationMixin:
     AND = 'AND'
     OR = 'OR'
@@ -17,12 +22,18 @@ class BinaryOperationMixin:
     def __and__(self, other):
         if not isinstance(other, (Condition, Conditions, ConditionsOfConditions)):
             raise TypeError(other)
-        return ConditionsOfConditions(self, other, self.AND)
+        return self._combine(other, self.AND)
 
     def __or__(self, other):
         if not isinstance(other, (Condition, Conditions, ConditionsOfConditions)):
             raise TypeError(other)
-        return ConditionsOfConditions(self, other, self.OR)
+        return self._combine(other, self.OR)
+
+    def _combine(self, other, type_):
+        for first, second in ((self, other), (other, self)):
+            if _is_empty(first):
+                return second.copy()
+        return ConditionsOfConditions(self, other, type_)
 
 
 class Condition(BinaryOperationMixin, QueryPart):
@@ -115,6 +126,11 @@ class Conditions(BinaryOperationMixin, QueryParts):
 
         return self
 
+    def append_part(self, query_part):
+        # For example empty Q object.
+        if not _is_empty(query_part):
+            super().append_part(query_part)
+
 
 class ConditionsOfConditions(BinaryOperationMixin, Object):
     def __init__(self, left, right, type_):
@@ -140,4 +156,6 @@ class Not(Function):
 
     def __init__(self, *args, **kwds):
         expr = Conditions(*args, **kwds)
+        if not expr.is_set:
+            raise InvalidArgumentException('You must specify condition for %s.' % self._function_name)
         super().__init__(expr)
-- 
2.43.0


From 40df52d199234948eb5b208e19cddd121620cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:19 +0000
Subject: [PATCH 19/27] fix: SQL object as limit or offset raised TypeError

---
 sqlpuzzle/_queryparts/limit.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 04e43d9..776b6c3 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -1,4 +1,5 @@
-from sqlpuzzle._common import check_type_decorator
+from sqlpuzzle._common import check_type_decorator, is_sql_instance
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart
 
 __all__ = ('Limit',)
@@ -37,12 +38,18 @@ class Limit(QueryPart):
             self._limit = None
             self._offset = None
         else:
-            self._limit = int(limit)
+            self._limit = self._get_int(limit)
             if offset is not None:
                 self.offset(offset)
         return self
 
     @check_type_decorator((type(None), int))
     def offset(self, offset):
-        self._offset = int(offset) if offset else None
+        self._offset = self._get_int(offset) if offset else None
         return self
+
+    @staticmethod
+    def _get_int(value):
+        if is_sql_instance(value):
+            raise InvalidArgumentException('Limit and offset cannot be of type {}.'.format(type(value)))
+        return int(value)
-- 
2.43.0


From eaa18e2c0e3be19dcec31c11d5f44482254edbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:22 +0000
Subject: [PATCH 20/27] fix: value of unknown type was pasted into query
 without escaping

---
 sqlpuzzle/_common/sqlvalue.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index f78dbc1..dd2f627 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -121,10 +121,7 @@ class SqlValue(Object):
         return 'NULL'
 
     def _undefined(self):
-        try:
-            return '<undefined value {}>'.format(self.value)
-        except Exception:  # pylint: disable=broad-except
-            return '<undefined value>'
+        raise InvalidArgumentException('Value cannot be of type {}.'.format(type(self.value)))
 
     def _reference(self):
         return get_backend().reference(self.value)
-- 
2.43.0


From 8ca63fb13cfdd0a2b54bffddc771ee9cad82fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:24 +0000
Subject: [PATCH 21/27] fix: values() of insert with custom SQL raised
 AttributeError during rendering

---
 sqlpuzzle/_queryparts/values.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 506feee..41ae43d 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -2,6 +2,7 @@ import datetime
 import decimal
 
 from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, is_same_value, parse_args
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -93,5 +94,7 @@ class MultipleValues(QueryParts):
 
     def add(self, *args, **kwds):
         values = Values().set(*args, **kwds)
+        if not all(isinstance(value, Value) for value in values._parts):
+            raise InvalidArgumentException('Row of values needs names of columns.')
         self.append_part(values)
         return self
-- 
2.43.0


From fdcdda533de3b36a7128f8a74822268eca7f3bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:27 +0000
Subject: [PATCH 22/27] fix: table of wrong type was ignored when it was falsy

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 0f9321c..7c15090 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -168,7 +168,7 @@ class Table(QueryPart):
 
 class Tables(QueryParts):
     def set(self, *args, **kwds):
-        args = [arg for arg in args if arg]
+        args = [arg for arg in args if arg is not None and arg != '']
 
         options = {
             'max_items': 2,
-- 
2.43.0


From c1e09cb554a704fc7547a5952df091c4ae63afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:30 +0000
Subject: [PATCH 23/27] fix: empty separator of GROUP_CONCAT was ignored

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aeb6591..a2f5858 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -131,7 +131,7 @@ class GroupConcat(Concat):
         return ''
 
     def _str_separator(self):
-        if self._separator:
+        if self._separator is not None:
             return ' SEPARATOR %s' % SqlValue(self._separator)
         return ''
 
-- 
2.43.0


From 31669ec6ebe8f1def24b9f6c4c4d576d07acdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:43 +0000
Subject: [PATCH 24/27] fix: CONCAT and GROUP_CONCAT without columns were
 rendered with asterisk

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index a2f5858..aa06bd4 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -99,7 +99,7 @@ class Concat(Function):
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
         self._columns = Columns().columns(*expr)
-        if not self._columns.is_set:
+        if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
     def __str__(self):
-- 
2.43.0


From e72786ef1b5abf30c5c4943e7125f248b11fff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:45 +0000
Subject: [PATCH 25/27] fix: repeated argument of CONCAT and GROUP_CONCAT was
 dropped

---
 sqlpuzzle/_queryparts/columns.py   | 3 ++-
 sqlpuzzle/_queryparts/functions.py | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 27e6bd7..b9005de 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -46,6 +46,7 @@ class Column(QueryPart):
 
 class Columns(QueryParts):
     _default_query_string = '*'
+    _allow_duplicates = False
 
     def columns(self, *args, **kwds):
         options = {
@@ -54,7 +55,7 @@ class Columns(QueryParts):
         }
         for column_name, alias in parse_args(options, *args, **kwds):
             column = Column(column_name, alias)
-            if column not in self:
+            if self._allow_duplicates or column not in self:
                 self.append_part(column)
 
         return self
diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aa06bd4..3ca734a 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -93,12 +93,17 @@ class Sum(FunctionWithDistinct):
     _function_name = 'SUM'
 
 
+class ConcatColumns(Columns):
+    # For example the same separator between all columns.
+    _allow_duplicates = True
+
+
 class Concat(Function):
     _function_name = 'CONCAT'
 
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
-        self._columns = Columns().columns(*expr)
+        self._columns = ConcatColumns().columns(*expr)
         if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
-- 
2.43.0


From d535f9783548670f1e41532e7f27150558512232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:37 +0000
Subject: [PATCH 26/27] fix: has() with empty name reported options of select

---
 sqlpuzzle/_queries/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queries/select.py b/sqlpuzzle/_queries/select.py
index 6c215fc..49aa159 100644
--- a/sqlpuzzle/_queries/select.py
+++ b/sqlpuzzle/_queries/select.py
@@ -68,7 +68,7 @@ class Select(Query):
         """
         if super().has(querypart_name, value):
             return True
-        if not value:
+        if querypart_name and not value:
             return super().has('select_options', querypart_name)
         return False
 
-- 
2.43.0


From 3c1fe0aa044ea66b3686f384619ed15ac804ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:39 +0000
Subject: [PATCH 27/27] fix: conditions and relations could not be used as dict
 keys or names of inserted columns

---
 sqlpuzzle/_queryparts/queryparts.py | 2 ++
 sqlpuzzle/relations.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 9d0a493..1892cd0 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -61,6 +61,8 @@ class QueryParts(Object):
             return False
         return all(sp == op for sp, op in zip(self._parts, other._parts))
 
+    __hash__ = Object.__hash__
+
     @property
     def count_of_parts(self):
         return len(self._parts)
diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 0731a12..bd2affa 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -44,6 +44,8 @@ class _RelationValue(Object):
             self._value == other._value
         )
 
+    __hash__ = Object.__hash__
+
     def _check_value_type(self, value):
         # isinstance(True, (int, long)) is True => must be special condition
         if (
-- 
2.43.0

