From 861a41635140100c5fdd5872472da24fd99e7fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 01/98] fix: read records that consist of a single empty field
 in tab-separated files

---
 pysqlsync/data/exchange.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index f20925c..eba2b7b 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -134,20 +134,20 @@ class TextReader:
 
         rows: list[tuple] = []
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            rows.append(self.parser.parse_line(line))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     def records(self) -> Iterable[tuple]:
         "An iterator to records in a file-like object."
 
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            yield self.parser.parse_line(line)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
 
 
 class AsyncBinaryIO(Protocol):
@@ -191,10 +191,9 @@ class AsyncTextReader:
         rows: list[tuple] = []
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            rows.append(self.parser.parse_line(record))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     async def records(self) -> AsyncIterator[tuple]:
@@ -202,7 +201,6 @@ class AsyncTextReader:
 
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            yield self.parser.parse_line(record)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
-- 
2.43.0


From 22d41103b39c9738b555cccc61e13237f6101866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 02/98] fix: percent-decode the database name in a connection
 string

---
 pysqlsync/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index aef20f1..ef4e3f3 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -103,7 +103,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
         port=parts.port,
         username=unquote(parts.username) if parts.username else None,
         password=unquote(parts.password) if parts.password else None,
-        database=parts.path.lstrip("/") if parts.path else None,
+        database=unquote(parts.path.lstrip("/")) if parts.path else None,
         ssl=ssl,
     )
 
-- 
2.43.0


From ae1c896e7f0162edcceb238d25e4e30f9673e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 03/98] fix: print IPv6 hosts of connection parameters in
 brackets

---
 pysqlsync/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/connection.py b/pysqlsync/connection.py
index 52a3556..1f6b3f9 100644
--- a/pysqlsync/connection.py
+++ b/pysqlsync/connection.py
@@ -102,6 +102,8 @@ class ConnectionParameters:
 
     def __str__(self) -> str:
         host = self.host or "localhost"
+        if ":" in host:
+            host = f"[{host}]"  # IPv6 address
         port = f":{self.port}" if self.port else ""
         username = f"{quote(self.username, safe='')}@" if self.username else ""
         database = f"/{quote(self.database, safe='')}" if self.database else ""
-- 
2.43.0


From 17bb9664b537e6a7eea51527dcba941851cb92bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 04/98] fix: do not negotiate encryption with PostgreSQL when
 SSL is disabled

---
 pysqlsync/dialect/postgresql/connection.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index cea28ed..f6b62ba 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Optional, TypeVar, Union
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -28,16 +28,18 @@ class PostgreSQLConnection(BaseConnection):
         LOGGER.info("connecting to %s", self.params)
 
         ssl_mode = self.params.ssl
-        if ssl_mode is None or ssl_mode is ConnectionSSLMode.disable:
+        if ssl_mode is None:
             return await self._open()
+        elif ssl_mode is ConnectionSSLMode.disable:
+            return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
             except ConnectionError:
-                return await self._open()
+                return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
-                return await self._open()
+                return await self._open(False)
             except ConnectionError:
                 return await self._open(create_context(ssl_mode))
         elif (
@@ -49,7 +51,10 @@ class PostgreSQLConnection(BaseConnection):
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-    async def _open(self, ctx: Optional[ssl.SSLContext] = None) -> BaseContext:
+    async def _open(
+        self, ctx: Union[ssl.SSLContext, bool, None] = None
+    ) -> BaseContext:
+        # if `ssl` is `None`, `asyncpg` prefers an encrypted connection; `False` permits a plain connection only
         conn = await asyncpg.connect(
             host=self.params.host,
             port=self.params.port,
-- 
2.43.0


From d846fdbdd69f9f3173ed903785053b8290bba7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 05/98] fix: try the other connection option when PostgreSQL
 rejects the connection for its (lack of) encryption

---
 pysqlsync/dialect/postgresql/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index f6b62ba..8f60568 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -35,12 +35,12 @@ class PostgreSQLConnection(BaseConnection):
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
-            except ConnectionError:
+            except (ConnectionError, asyncpg.InvalidAuthorizationSpecificationError):
                 return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
                 return await self._open(False)
-            except ConnectionError:
+            except (ConnectionError, asyncpg.InvalidAuthorizationSpecificationError):
                 return await self._open(create_context(ssl_mode))
         elif (
             ssl_mode is ConnectionSSLMode.require
-- 
2.43.0


From af60b9ab334c2fedca724068236a9611b7aa1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 06/98] fix: quote attribute values in the connection string
 for Microsoft SQL Server

---
 pysqlsync/dialect/mssql/connection.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1639471..cf83772 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -1,4 +1,5 @@
 import logging
+import re
 import typing
 from typing import Iterable, Optional, TypeVar
 
@@ -20,6 +21,14 @@ T = TypeVar("T")
 LOGGER = logging.getLogger("pysqlsync.mssql")
 
 
+def _odbc_value(value: str) -> str:
+    "Encloses a connection string attribute value in braces if it contains special characters such as `;` or `=`."
+
+    if not re.search(r"[;={}\s]", value):
+        return value
+    return "{" + value.replace("}", "}}") + "}"
+
+
 class MSSQLConnection(BaseConnection):
     """
     Represents a connection to a Microsoft SQL Server.
@@ -32,7 +41,7 @@ class MSSQLConnection(BaseConnection):
     def open(self) -> BaseContext:
         LOGGER.info("connecting to %s", self.params)
         params = {
-            "DRIVER": "{ODBC Driver 18 for SQL Server}",
+            "DRIVER": "ODBC Driver 18 for SQL Server",
             "APP": "pysqlsync",
             "SERVER": (
                 f"{self.params.host},{self.params.port}"
@@ -47,7 +56,9 @@ class MSSQLConnection(BaseConnection):
         if self.params.database is not None:
             params["DATABASE"] = self.params.database
         conn_string = ";".join(
-            f"{key}={value}" for key, value in params.items() if value is not None
+            f"{key}={_odbc_value(value)}"
+            for key, value in params.items()
+            if value is not None
         )
         conn = pyodbc.connect(conn_string)
         with conn.cursor() as cur:
-- 
2.43.0


From 71c922e900a71537655611206af1b08c1520610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 07/98] fix: assign query results of Oracle to data-class
 fields by name

---
 pysqlsync/dialect/oracle/connection.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index e2032f5..094a8fd 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -1,10 +1,14 @@
 import logging
 import re
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Callable, Iterable, Optional, TypeVar
 
 import oracledb
-from strong_typing.inspection import DataclassInstance, is_dataclass_type
+from strong_typing.inspection import (
+    DataclassInstance,
+    dataclass_fields,
+    is_dataclass_type,
+)
 
 from pysqlsync.base import (
     BaseConnection,
@@ -122,13 +126,27 @@ class OracleContext(BaseContext):
             )
             cur.executemany(statement, list(records))
 
+    def _get_row_factory(
+        self, cur: oracledb.Cursor, signature: type[T]
+    ) -> Callable[..., T]:
+        "Creates a function that assigns values in a row to the like-named fields of a data-class."
+
+        # Oracle folds unquoted identifiers to upper case
+        fields = {field.name.lower(): field.name for field in dataclass_fields(signature)}  # type: ignore
+        names = [fields.get(desc[0].lower()) for desc in cur.description]
+        if set(names) != set(fields.values()) or len(names) != len(fields):
+            # use positional matching if some columns have no name (e.g. expressions)
+            return lambda *args: signature(*args)
+
+        return lambda *args: signature(**dict(zip(names, args)))  # type: ignore
+
     @override
     @thread_dispatch
     def _query_all(self, signature: type[T], statement: str) -> list[T]:
         with self.native_connection.cursor() as cur:
             cur.execute(statement)
             if is_dataclass_type(signature):
-                cur.rowfactory = lambda *args: signature(*args)
+                cur.rowfactory = self._get_row_factory(cur, signature)
 
             records = cur.fetchall()
 
-- 
2.43.0


From dc389e71b1c06fba0ef1a0c3853a9e67264b5c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 08/98] fix: convert items of an array of structures as per the
 structure mode

---
 pysqlsync/formation/py_to_sql.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef3a4e0..9d461b1 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -613,13 +613,7 @@ class DataclassConverter:
                 )
             if isinstance(item_type, type):
                 if self.options.array_mode is ArrayMode.ARRAY:
-                    return SqlArrayType(
-                        SqlUserDefinedType(
-                            self.create_qualified_id(
-                                item_type.__module__, item_type.__name__
-                            )
-                        )
-                    )
+                    return SqlArrayType(self.member_to_sql_data_type(item_type, cls))
                 elif self.options.array_mode is ArrayMode.JSON:
                     return self.member_to_sql_data_type(JsonType, cls)
                 elif self.options.array_mode is ArrayMode.RELATION:
-- 
2.43.0


From c91b7b768da7fc2532492f06048a9e5682b0af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 09/98] fix: create enumeration and structure types of modules
 without any entity class

---
 pysqlsync/formation/py_to_sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 9d461b1..00b944b 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1178,9 +1178,9 @@ class DataclassConverter:
                     name=LocalId(self.options.namespaces.get(module_name) or ""),
                     enums=enums.get(module_name, []),
                     structs=structs.get(module_name, []),
-                    tables=table_defs,
+                    tables=tables.get(module_name, []),
                 )
-                for module_name, table_defs in tables.items()
+                for module_name in dict.fromkeys([*tables, *enums, *structs])
             ]
         else:
             namespaces = [
-- 
2.43.0


From 456e0ddecf0608556789e2d1ebcd885993e1d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 10/98] fix: name the unique constraint of an enumeration table
 after its schema and class

---
 pysqlsync/formation/py_to_sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 00b944b..1394bcd 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -954,7 +954,7 @@ class DataclassConverter:
             )
             constraints.append(
                 UniqueConstraint(
-                    LocalId(f"uq_{enum_table_name}"),
+                    LocalId(f"uq_{self.create_qualified_prefix(enum_type)}"),
                     (LocalId("value"),),
                 )
             )
-- 
2.43.0


From d295e75b0d0859c896ec13bad314a0e91923a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 11/98] fix: determine automatic defaults for all types of
 required columns

---
 pysqlsync/formation/py_to_sql.py | 17 ++++++++++-------
 pysqlsync/model/data_types.py    |  2 ++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 1394bcd..fa2ef56 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -673,6 +673,9 @@ class DataclassConverter:
         ):
             if is_reference_type(props.plain_type, cls):
                 plain_type = reference_to_key(props.plain_type, cls)
+            elif is_extensible_enum_type(props.plain_type, cls):
+                # column refers to an entry in a lookup table
+                plain_type = None
             elif is_type_union(props.plain_type):
                 member_types = [
                     evaluate_member_type(t, cls)
@@ -695,8 +698,9 @@ class DataclassConverter:
                 # unable to infer default value for type
                 plain_type = None
 
+            default_expr: Any = None
             if plain_type is not None:
-                default_expr: Any
+                plain_type = unwrap_annotated_type(plain_type)
                 if plain_type is datetime.datetime:
                     default_expr = datetime.datetime.min
                 elif plain_type is datetime.date:
@@ -704,12 +708,11 @@ class DataclassConverter:
                 elif plain_type is datetime.time:
                     default_expr = datetime.time.min
                 elif is_type_enum(plain_type):
-                    default_expr = next(member.value for member in plain_type)
-                else:
-                    default_expr = plain_type()  # type: ignore
-                default_value = constant(default_expr)
-            else:
-                default_value = None
+                    if self.options.enum_mode is not EnumMode.RELATION:
+                        default_expr = next(member.value for member in plain_type)
+                elif plain_type in (bool, int, float, str, decimal.Decimal):
+                    default_expr = plain_type()
+            default_value = constant(default_expr) if default_expr is not None else None
         else:
             default_value = None
 
diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index c71aef6..61c1299 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -40,6 +40,8 @@ def constant(v: Any) -> str:
         else:
             timestamp = v
         return quote(timestamp.isoformat(sep=" "))
+    elif isinstance(v, (datetime.date, datetime.time)):
+        return quote(v.isoformat())
     elif isinstance(v, tuple):
         values = ", ".join(constant(value) for value in v)
         return f"({values})"
-- 
2.43.0


From 569733f93f7ff3ed669b769d5597d46cd00c3dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 12/98] fix: write date, time and fractional timestamp defaults
 as literals of their type in Oracle

---
 pysqlsync/dialect/oracle/object_types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 5469aff..a6ead80 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,7 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.model.data_types import SqlDateType, SqlTimestampType, SqlTimeType
 
 
 class OracleColumn(Column):
@@ -12,11 +12,18 @@ class OracleColumn(Column):
 
         if isinstance(self.data_type, SqlTimestampType):
             m = re.match(
-                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})'$",
+                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})(\.\d{1,6})?'$",
                 self.default,
             )
             if m:
                 return f"TIMESTAMP {self.default}"
+        elif isinstance(self.data_type, SqlDateType):
+            if re.match(r"^'\d{4}-\d{2}-\d{2}'$", self.default):
+                return f"DATE {self.default}"
+        elif isinstance(self.data_type, SqlTimeType):
+            m = re.match(r"^'(\d{2}:\d{2}:\d{2}(\.\d{1,6})?)'$", self.default)
+            if m:
+                return f"INTERVAL '0 {m.group(1)}' DAY TO SECOND"
 
         return self.default
 
-- 
2.43.0


From 4841c82441184f4df89e66394cb5f760bfb7bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 13/98] fix: write Boolean defaults as 1 and 0 in Microsoft SQL
 Server

---
 pysqlsync/dialect/mssql/mutation.py     |  5 +++--
 pysqlsync/dialect/mssql/object_types.py | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 5f49fe8..e1dc60d 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -39,12 +39,13 @@ class MSSQLMutator(Mutator):
             if source_def == target_def:
                 continue
 
-            name = typing.cast(MSSQLColumn, source_column).default_constraint_name()
+            target_default = typing.cast(MSSQLColumn, target_column)
+            name = target_default.default_constraint_name()
             if source_def is not None:
                 constraints.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
                 constraints.append(
-                    f"ADD CONSTRAINT {name} DEFAULT {target_def} FOR {source_column.name}"
+                    f"ADD CONSTRAINT {name} DEFAULT {target_default.default_expr} FOR {source_column.name}"
                 )
 
         if constraints:
diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 45f3aff..f5e1f29 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -8,7 +8,7 @@ from pysqlsync.formation.object_types import (
     Table,
     join_or_none,
 )
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import SqlBooleanType, quote
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -19,12 +19,27 @@ class MSSQLColumn(Column):
 
         return LocalId(f"df_{self.name.local_id}")
 
+    @property
+    def default_expr(self) -> str:
+        "The expression for DEFAULT in T-SQL, which has no Boolean literals."
+
+        if self.default is None:
+            raise ValueError("default value is NULL")
+
+        if isinstance(self.data_type, SqlBooleanType):
+            if self.default == "TRUE":
+                return "1"
+            elif self.default == "FALSE":
+                return "0"
+
+        return self.default
+
     @property
     def data_spec(self) -> str:
         nullable = " NOT NULL" if not self.nullable else ""
         name = self.default_constraint_name()
         default = (
-            f" CONSTRAINT {name} DEFAULT {self.default}"
+            f" CONSTRAINT {name} DEFAULT {self.default_expr}"
             if self.default is not None
             else ""
         )
-- 
2.43.0


From 2ffbe8f167df51b63422b91ba312a21c7805b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 14/98] fix: escape backslash characters in string literals in
 MySQL

---
 pysqlsync/dialect/mysql/mutation.py     | 12 +++----
 pysqlsync/dialect/mysql/object_types.py | 44 ++++++++++++++++++++++---
 pysqlsync/formation/object_types.py     | 12 +++----
 3 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index e199c5d..9ba9245 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -9,10 +9,10 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType, quote
+from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType
 from pysqlsync.model.id_types import LocalId
 
-from .object_types import MySQLColumn, MySQLTable
+from .object_types import MySQLColumn, MySQLTable, sql_quoted_string
 
 
 class MySQLMutator(Mutator):
@@ -22,7 +22,7 @@ class MySQLMutator(Mutator):
         statements: list[str] = []
         ref = target_table.get_constraint(target.name)
         if isinstance(source.data_type, SqlEnumType):
-            enum_values = ", ".join(f"({quote(v)})" for v in source.data_type.values)
+            enum_values = ", ".join(f"({sql_quoted_string(v)})" for v in source.data_type.values)
             statements.append(
                 f'INSERT INTO {ref.table} ("value") VALUES {enum_values}\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
@@ -54,14 +54,14 @@ class MySQLMutator(Mutator):
         if source_desc is None:
             if target_desc is not None:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string(target_desc)};"
                 )
         else:
             if target_desc is None:
-                statements.append(f"ALTER TABLE {target.name} COMMENT = {quote('')};")
+                statements.append(f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string('')};")
             elif source_desc != target_desc:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string(target_desc)};"
                 )
 
         return join_or_none(statements)
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index c73b678..fee2701 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -12,6 +12,18 @@ from pysqlsync.model.data_types import SqlEnumType, quote
 from pysqlsync.model.id_types import LocalId
 
 
+def escape_backslash(expr: str) -> str:
+    "Escapes backslash characters in a string literal, which is an escape character in MySQL."
+
+    return expr.replace("\\", "\\\\")
+
+
+def sql_quoted_string(text: str) -> str:
+    "Quotes a string to be embedded in an SQL statement for MySQL."
+
+    return escape_backslash(quote(text))
+
+
 class MySQLTable(Table):
     @property
     def short_description(self) -> Optional[str]:
@@ -33,7 +45,7 @@ class MySQLTable(Table):
         )
         definition = ",\n".join(defs)
         comment = (
-            f"\nCOMMENT = {quote(self.short_description)}"
+            f"\nCOMMENT = {sql_quoted_string(self.short_description)}"
             if self.short_description
             else ""
         )
@@ -41,11 +53,33 @@ class MySQLTable(Table):
 
 
 class MySQLEnumTable(EnumTable, MySQLTable):
-    pass
+    def values_stmt(self) -> str:
+        return escape_backslash(super().values_stmt())
 
 
 @dataclass(eq=True)
 class MySQLColumn(Column):
+    @property
+    def type_spec(self) -> str:
+        "The SQL data type of the column with backslash characters escaped in enumeration labels."
+
+        if isinstance(self.data_type, SqlEnumType):
+            return escape_backslash(str(self.data_type))
+        else:
+            return str(self.data_type)
+
+    @property
+    def default_expr(self) -> str:
+        "The expression for DEFAULT with backslash characters escaped in a string literal."
+
+        if self.default is None:
+            raise ValueError("default value is NULL")
+
+        if self.default.startswith("'"):
+            return escape_backslash(self.default)
+        else:
+            return self.default
+
     @property
     def data_spec(self) -> str:
         charset = (
@@ -54,10 +88,10 @@ class MySQLColumn(Column):
             else ""
         )
         nullable = " NOT NULL" if not self.nullable else ""
-        default = f" DEFAULT {self.default}" if self.default is not None else ""
+        default = f" DEFAULT {self.default_expr}" if self.default is not None else ""
         identity = " AUTO_INCREMENT" if self.identity else ""
         description = f" COMMENT {self.comment}" if self.description is not None else ""
-        return f"{self.data_type}{charset}{nullable}{default}{identity}{description}"
+        return f"{self.type_spec}{charset}{nullable}{default}{identity}{description}"
 
     @property
     def comment(self) -> Optional[str]:
@@ -73,7 +107,7 @@ class MySQLColumn(Column):
                     f"comment for column {self.name} too long, expected: maximum 1024; got: {len(description)}"
                 )
 
-            return quote(description)
+            return sql_quoted_string(description)
         else:
             return None
 
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 429a648..fd74367 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -605,8 +605,11 @@ class EnumTable(Table):
         self.values = values
 
     def create_stmt(self) -> str:
-        statements: list[str] = []
-        statements.append(super().create_stmt())
+        return "\n".join([super().create_stmt(), self.values_stmt()])
+
+    def values_stmt(self) -> str:
+        "Populates the table with enumeration values."
+
         column_list = ", ".join(str(col.name) for col in self.get_value_columns())
         values: list[str] = []
         for value in self.values:
@@ -616,10 +619,7 @@ class EnumTable(Table):
                 values.append(f"({constant(value)})")
         value_list = ", ".join(values)
 
-        statements.append(
-            f"INSERT INTO {self.name} ({column_list}) VALUES {value_list};"
-        )
-        return "\n".join(statements)
+        return f"INSERT INTO {self.name} ({column_list}) VALUES {value_list};"
 
 
 @dataclass
-- 
2.43.0


From 8c60c9329b250a799f31d6ef8e796c544342506f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 15/98] fix: do not restrict inline enumerations with non-ASCII
 labels to ASCII in MySQL

---
 pysqlsync/dialect/mysql/object_types.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index fee2701..13267f9 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -82,11 +82,12 @@ class MySQLColumn(Column):
 
     @property
     def data_spec(self) -> str:
-        charset = (
-            " CHARACTER SET ascii COLLATE ascii_bin"
-            if isinstance(self.data_type, SqlEnumType)
-            else ""
-        )
+        if not isinstance(self.data_type, SqlEnumType):
+            charset = ""
+        elif all(value.isascii() for value in self.data_type.values):
+            charset = " CHARACTER SET ascii COLLATE ascii_bin"
+        else:
+            charset = " CHARACTER SET utf8mb4 COLLATE utf8mb4_bin"
         nullable = " NOT NULL" if not self.nullable else ""
         default = f" DEFAULT {self.default_expr}" if self.default is not None else ""
         identity = " AUTO_INCREMENT" if self.identity else ""
-- 
2.43.0


From 5d66be3601aaa408ec9e70f77a2a64f062312a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 16/98] fix: write defaults of text and JSON columns as
 expressions in MySQL

---
 pysqlsync/dialect/mysql/object_types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index 13267f9..fe1e071 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -1,3 +1,4 @@
+import re
 from dataclasses import dataclass
 from typing import Optional
 
@@ -76,9 +77,15 @@ class MySQLColumn(Column):
             raise ValueError("default value is NULL")
 
         if self.default.startswith("'"):
-            return escape_backslash(self.default)
+            default = escape_backslash(self.default)
         else:
-            return self.default
+            default = self.default
+
+        # BLOB, TEXT and JSON columns accept a default only when written as an expression
+        if re.match(r"^(tiny|medium|long)?(text|blob)$|^json$", self.type_spec):
+            return f"({default})"
+        else:
+            return default
 
     @property
     def data_spec(self) -> str:
-- 
2.43.0


From 402fca099792124f2a9527858cc1f5174afc5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 17/98] fix: create schemas whose tables refer to each other

---
 pysqlsync/formation/object_types.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index fd74367..16a8070 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -4,7 +4,6 @@ from dataclasses import dataclass
 from typing import Any, Iterable, Optional, overload
 
 from strong_typing.inspection import is_dataclass_instance
-from strong_typing.topological import topological_sort
 
 from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
 from ..model.id_types import LocalId, SupportsQualifiedId
@@ -842,15 +841,27 @@ class Catalog(DatabaseObject):
         Sort namespaces in topological order of reference.
 
         Namespaces that have no external references come first. The next group contains namespaces that reference
-        items only in the first group of namespaces, etc.
+        items only in the first group of namespaces, etc. If namespaces reference each other, their order is kept.
         """
 
         graph = {
-            ns.name: ns.get_referenced_namespaces() for ns in self.namespaces.values()
+            ns.name.local_id: ns.get_referenced_namespaces()
+            for ns in self.namespaces.values()
         }
-        for ref_ns in graph.values():
-            ref_ns.intersection_update(graph.keys())
-        order = [name.local_id for name in topological_sort(graph)]
+        order: list[str] = []
+        seen: set[str] = set()
+
+        def _visit(name: str) -> None:
+            if name in seen:
+                return
+            seen.add(name)
+            for other in graph:
+                if LocalId(other) in graph[name]:
+                    _visit(other)
+            order.append(name)
+
+        for name in graph:
+            _visit(name)
         self.namespaces.reorder(order)
 
     def merge(self, op: "Catalog") -> None:
-- 
2.43.0


From f7176ff629db94d5294f8caf7dd42f6e277b0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 18/98] fix: map unsigned integers to a number in Oracle

---
 pysqlsync/dialect/oracle/generator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 9a16b89..cfa03d9 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -3,7 +3,16 @@ import ipaddress
 import uuid
 from typing import Any, Callable, Optional
 
-from strong_typing.auxiliary import int8, int16, int32, int64
+from strong_typing.auxiliary import (
+    int8,
+    int16,
+    int32,
+    int64,
+    uint8,
+    uint16,
+    uint32,
+    uint64,
+)
 from strong_typing.core import JsonType
 
 from pysqlsync.base import BaseGenerator, GeneratorOptions
@@ -65,6 +74,10 @@ class OracleGenerator(BaseGenerator):
                     int16: OracleIntegerType(),
                     int32: OracleIntegerType(),
                     int64: OracleIntegerType(),
+                    uint8: OracleIntegerType(),
+                    uint16: OracleIntegerType(),
+                    uint32: OracleIntegerType(),
+                    uint64: OracleIntegerType(),
                     str: OracleVariableCharacterType(),
                     uuid.UUID: OracleVariableBinaryType(16),
                     JsonType: OracleVariableCharacterType(),
-- 
2.43.0


From 7ccd91d61f9ee4febc0ec378c87b16a666fe66c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 19/98] fix: create and drop objects in order of reference
 across schemas

---
 pysqlsync/formation/mutation.py     | 165 ++++++++++++++++------------
 pysqlsync/formation/object_types.py |  57 +++++++---
 2 files changed, 138 insertions(+), 84 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 35a5c75..8cec481 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -21,6 +21,7 @@ from .object_types import (
     Table,
     TableFormationError,
     join_or_none,
+    sort_structs,
 )
 
 
@@ -266,23 +267,81 @@ class Mutator:
     ) -> Optional[str]:
         self.check_identity(source, target)
 
+        return self._mutate_objects_stmt([(source, target)], [])
+
+    def mutate_catalog_stmt(self, source: Catalog, target: Catalog) -> Optional[str]:
+        statements: StatementList = StatementList()
+
+        source.sort()
+        target.sort()
+
+        ns_create = list(target.namespaces.difference(source.namespaces))
+        ns_drop = list(source.namespaces.difference(target.namespaces))
+        ns_mutate = list(source.namespaces.intersection(target.namespaces))
+
+        # create new namespaces
+        statements.extend(namespace.create_schema_stmt() for namespace in ns_create)
+
+        # create, mutate and drop objects in all namespaces
+        ns_pairs = [(type(ns)(ns.name), ns) for ns in ns_create] + ns_mutate
+        statements.append(self._mutate_objects_stmt(ns_pairs, ns_drop))
+
+        # drop old namespaces
+        if self.options.allow_drop_namespace:
+            statements.extend(
+                namespace.drop_schema_stmt() for namespace in reversed(ns_drop)
+            )
+
+        return join_or_none(statements)
+
+    def _mutate_objects_stmt(
+        self, ns_pairs: list[tuple[Namespace, Namespace]], ns_drop: list[Namespace]
+    ) -> Optional[str]:
+        """
+        Creates, mutates and drops objects across namespaces.
+
+        Objects are created before other objects refer to them, and dropped after no other object refers to them,
+        irrespective of which namespace the objects are in.
+
+        :param ns_pairs: Namespaces to mutate, with an empty source namespace for a new namespace.
+        :param ns_drop: Namespaces to drop along with all objects within.
+        """
+
         statements: StatementList = StatementList()
 
         # identify objects to create
-        enum_create = list(target.enums.difference(source.enums))
-        struct_create = list(target.structs.difference(source.structs))
-        table_create = list(target.tables.difference(source.tables))
+        enum_create = [e for s, t in ns_pairs for e in t.enums.difference(s.enums)]
+        struct_create = sort_structs(
+            [x for s, t in ns_pairs for x in t.structs.difference(s.structs)]
+        )
+        table_create = [x for s, t in ns_pairs for x in t.tables.difference(s.tables)]
 
         # identify objects to drop
-        enum_drop = list(source.enums.difference(target.enums))
-        struct_drop = list(source.structs.difference(target.structs))
-        table_drop = list(source.tables.difference(target.tables))
+        enum_drop = [e for s, t in ns_pairs for e in s.enums.difference(t.enums)]
+        struct_drop = [x for s, t in ns_pairs for x in s.structs.difference(t.structs)]
+        table_drop = [x for s, t in ns_pairs for x in s.tables.difference(t.tables)]
         enum_soft_deleted: list[EnumType] = []
 
-        # create new objects
+        # create new types
         statements.extend(enum.create_stmt() for enum in enum_create)
         statements.extend(struct.create_stmt() for struct in struct_create)
 
+        # mutate existing types
+        for source_ns, target_ns in ns_pairs:
+            statements.extend(
+                self.mutate_enum_stmt(source_enum, target_enum)
+                for source_enum, target_enum in source_ns.enums.intersection(
+                    target_ns.enums
+                )
+            )
+            statements.extend(
+                self.mutate_struct_stmt(source_struct, target_struct)
+                for source_struct, target_struct in source_ns.structs.intersection(
+                    target_ns.structs
+                )
+            )
+
+        # create new tables
         for enum_type in enum_drop:
             for table in table_create:
                 if enum_type.name != table.name:
@@ -301,74 +360,38 @@ class Mutator:
 
                 statements.append(self.migrate_enum_stmt(enum_type, table))
 
-        # mutate existing object
-        enum_mutate = list(source.enums.intersection(target.enums))
-        statements.extend(
-            self.mutate_enum_stmt(source_enum, target_enum)
-            for source_enum, target_enum in enum_mutate
-        )
-
-        struct_mutate = list(source.structs.intersection(target.structs))
-        statements.extend(
-            self.mutate_struct_stmt(source_struct, target_struct)
-            for source_struct, target_struct in struct_mutate
-        )
-
-        table_mutate = list(source.tables.intersection(target.tables))
-        statements.extend(
-            self.mutate_table_stmt(source_table, target_table)
-            for source_table, target_table in table_mutate
-        )
-
-        # drop old objects
-        if self.options.allow_drop_table:
-            statements.extend(table.drop_stmt() for table in table_drop)
-
-        if self.options.allow_drop_struct:
-            statements.extend(struct.drop_stmt() for struct in struct_drop)
-
-        if self.options.allow_drop_enum:
-            for enum_type in enum_drop:
-                statements.append(
-                    enum_type.hard_drop_stmt()
-                    if enum_type in enum_soft_deleted
-                    else enum_type.drop_stmt()
+        # mutate existing tables
+        for source_ns, target_ns in ns_pairs:
+            statements.extend(
+                self.mutate_table_stmt(source_table, target_table)
+                for source_table, target_table in source_ns.tables.intersection(
+                    target_ns.tables
                 )
+            )
 
-        return join_or_none(statements)
-
-    def mutate_catalog_stmt(self, source: Catalog, target: Catalog) -> Optional[str]:
-        statements: StatementList = StatementList()
-
-        source.sort()
-        target.sort()
-
-        ns_create = list(target.namespaces.difference(source.namespaces))
-        ns_drop = list(source.namespaces.difference(target.namespaces))
-        ns_mutate = list(source.namespaces.intersection(target.namespaces))
-
-        # create new namespaces
-        statements.extend(namespace.create_schema_stmt() for namespace in ns_create)
-
-        # create objects in each namespace added
-        statements.extend(namespace.create_objects_stmt() for namespace in ns_create)
-
-        # add new constraints
-        statements.extend(namespace.add_constraints_stmt() for namespace in ns_create)
+        # drop old objects
+        if not self.options.allow_drop_table:
+            table_drop.clear()
+        if not self.options.allow_drop_struct:
+            struct_drop.clear()
+        if not self.options.allow_drop_enum:
+            enum_drop.clear()
+        if self.options.allow_drop_namespace:
+            statements.extend(ns.drop_constraints_stmt() for ns in ns_drop)
+            for ns in ns_drop:
+                table_drop.extend(ns.tables.values())
+                struct_drop.extend(ns.structs.values())
+                enum_drop.extend(ns.enums.values())
 
-        # mutate existing namespaces
+        statements.extend(table.drop_stmt() for table in table_drop)
         statements.extend(
-            self.mutate_namespace_stmt(source_ns, target_ns)
-            for source_ns, target_ns in ns_mutate
+            struct.drop_stmt() for struct in reversed(sort_structs(struct_drop))
         )
-
-        # remove old constraints
-        statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
-        if self.options.allow_drop_namespace:
-            # drop objects in each namespace removed
-            statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
-
-            # drop old namespaces
-            statements.extend(namespace.drop_schema_stmt() for namespace in ns_drop)
+        for enum_type in enum_drop:
+            statements.append(
+                enum_type.hard_drop_stmt()
+                if enum_type in enum_soft_deleted
+                else enum_type.drop_stmt()
+            )
 
         return join_or_none(statements)
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 16a8070..00ead10 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -5,7 +5,7 @@ from typing import Any, Iterable, Optional, overload
 
 from strong_typing.inspection import is_dataclass_instance
 
-from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
+from ..model.data_types import SqlArrayType, SqlDataType, SqlUserDefinedType, constant
 from ..model.id_types import LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
@@ -75,6 +75,18 @@ class TableFormationError(FormationError):
         return f"table {self.table}: {self.args[0]}"
 
 
+def referenced_types(data_types: Iterable[SqlDataType]) -> set[SupportsQualifiedId]:
+    "Returns the user-defined types that data types (or their elements) refer to."
+
+    items: set[SupportsQualifiedId] = set()
+    for data_type in data_types:
+        while isinstance(data_type, SqlArrayType):
+            data_type = data_type.element_type
+        if isinstance(data_type, SqlUserDefinedType):
+            items.add(data_type.ref)
+    return items
+
+
 @dataclass
 class QualifiedObject(abc.ABC):
     name: SupportsQualifiedId
@@ -161,11 +173,7 @@ class StructType(DatabaseObject, QualifiedObject):
         self.description = description
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            m.data_type.ref
-            for m in self.members.values()
-            if isinstance(m.data_type, SqlUserDefinedType)
-        )
+        return referenced_types(m.data_type for m in self.members.values())
 
     def create_stmt(self) -> str:
         members = ",\n".join(str(m) for m in self.members.values())
@@ -178,6 +186,24 @@ class StructType(DatabaseObject, QualifiedObject):
         return self.create_stmt()
 
 
+def sort_structs(structs: Iterable[StructType]) -> list[StructType]:
+    "Sorts composite types such that a type comes after all types that its members refer to."
+
+    pending = {struct.name: struct for struct in structs}
+    items: list[StructType] = []
+
+    def _visit(name: SupportsQualifiedId) -> None:
+        struct = pending.pop(name, None)
+        if struct is not None:
+            for ref in sorted(struct.get_referenced_types(), key=lambda r: r.quoted_id):
+                _visit(ref)
+            items.append(struct)
+
+    for name in list(pending):
+        _visit(name)
+    return items
+
+
 @dataclass(eq=True)
 class Column(DatabaseObject):
     """
@@ -521,11 +547,7 @@ class Table(DatabaseObject, QualifiedObject):
         raise KeyError(f"foreign constraint not found for column: {column_id}")
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            c.data_type.ref
-            for c in self.columns.values()
-            if isinstance(c.data_type, SqlUserDefinedType)
-        )
+        return referenced_types(c.data_type for c in self.columns.values())
 
     def get_referenced_tables(self) -> set[SupportsQualifiedId]:
         items: set[SupportsQualifiedId] = set()
@@ -708,7 +730,7 @@ class Namespace(DatabaseObject):
     def create_objects_stmt(self) -> Optional[str]:
         items: list[str] = []
         items.extend(str(e) for e in self.enums.values())
-        items.extend(str(s) for s in self.structs.values())
+        items.extend(s.create_stmt() for s in sort_structs(self.structs.values()))
         items.extend(t.create_stmt() for t in self.tables.values())
         return join_or_none(items)
 
@@ -819,7 +841,16 @@ class Catalog(DatabaseObject):
         self.sort()
         items: list[Optional[str]] = []
         items.extend(n.create_schema_stmt() for n in self.namespaces.values())
-        items.extend(n.create_objects_stmt() for n in self.namespaces.values())
+        for ns in self.namespaces.values():
+            items.extend(e.create_stmt() for e in ns.enums.values())
+        items.extend(
+            s.create_stmt()
+            for s in sort_structs(
+                s for ns in self.namespaces.values() for s in ns.structs.values()
+            )
+        )
+        for ns in self.namespaces.values():
+            items.extend(t.create_stmt() for t in ns.tables.values())
         return join(items)
 
     def add_constraints_stmt(self) -> Optional[str]:
-- 
2.43.0


From 5587e820f303fe851807f03e3bb31b2716ae6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 20/98] fix: drop constraints before the columns that they
 refer to

---
 pysqlsync/formation/mutation.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 8cec481..ceef52f 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -172,6 +172,15 @@ class Mutator:
         # accumulate object creation statements
         create_stmts: list[str] = []
 
+        # remove outdated constraints (before the columns that they refer to)
+        drop_constraints = [
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        ]
+        if drop_constraints:
+            statements.append(source.alter_table_stmt(drop_constraints))
+
         # rename conflicting columns
         try:
             for pair in common_columns:
@@ -234,13 +243,6 @@ class Mutator:
                 "failed to drop columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
-        # remove outdated constraints
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
             if source_constraint != target_constraint:
-- 
2.43.0


From 067b9b140f812fb6ac49ccca9274b1107ea1ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 21/98] fix: drop foreign keys among dropped tables before the
 tables

---
 pysqlsync/formation/mutation.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index ceef52f..c511fb9 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -14,6 +14,7 @@ from .object_types import (
     Column,
     ColumnFormationError,
     EnumType,
+    ForeignConstraint,
     FormationError,
     Namespace,
     StatementList,
@@ -379,12 +380,24 @@ class Mutator:
         if not self.options.allow_drop_enum:
             enum_drop.clear()
         if self.options.allow_drop_namespace:
-            statements.extend(ns.drop_constraints_stmt() for ns in ns_drop)
             for ns in ns_drop:
                 table_drop.extend(ns.tables.values())
                 struct_drop.extend(ns.structs.values())
                 enum_drop.extend(ns.enums.values())
 
+        # tables may refer to each other
+        table_names = set(table.name for table in table_drop)
+        for table in table_drop:
+            foreign_constraints = [
+                f"DROP CONSTRAINT {constraint.name}"
+                for constraint in table.constraints.values()
+                if isinstance(constraint, ForeignConstraint)
+                and constraint.reference.table != table.name
+                and constraint.reference.table in table_names
+            ]
+            if foreign_constraints:
+                statements.append(table.alter_table_stmt(foreign_constraints))
+
         statements.extend(table.drop_stmt() for table in table_drop)
         statements.extend(
             struct.drop_stmt() for struct in reversed(sort_structs(struct_drop))
-- 
2.43.0


From f2307e336c25a59633c0b4d66d5a5f1110d98efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 22/98] fix: retain types and tables that objects not permitted
 to be dropped depend on

---
 pysqlsync/formation/mutation.py | 91 ++++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 14 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index c511fb9..2d03723 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Optional
+from typing import Optional, Union
 
 from ..model.data_types import (
     SqlEnumType,
@@ -8,11 +8,12 @@ from ..model.data_types import (
     constant,
     quote,
 )
-from ..model.id_types import SupportsName
+from ..model.id_types import SupportsName, SupportsQualifiedId
 from .object_types import (
     Catalog,
     Column,
     ColumnFormationError,
+    DatabaseObject,
     EnumType,
     ForeignConstraint,
     FormationError,
@@ -43,6 +44,12 @@ class MutatorOptions:
     allow_drop_namespace: bool = True
 
 
+def get_objects(ns: Namespace) -> list[Union[EnumType, StructType, Table]]:
+    "All objects in a namespace."
+
+    return [*ns.enums.values(), *ns.structs.values(), *ns.tables.values()]
+
+
 class Mutator:
     "Morphs an existing source state into a desired target state."
 
@@ -291,12 +298,71 @@ class Mutator:
 
         # drop old namespaces
         if self.options.allow_drop_namespace:
+            retained = self._get_retained(ns_pairs, ns_drop)
             statements.extend(
-                namespace.drop_schema_stmt() for namespace in reversed(ns_drop)
+                namespace.drop_schema_stmt()
+                for namespace in reversed(ns_drop)
+                if not retained.intersection(o.name for o in get_objects(namespace))
             )
 
         return join_or_none(statements)
 
+    def _get_retained(
+        self, ns_pairs: list[tuple[Namespace, Namespace]], ns_drop: list[Namespace]
+    ) -> set[SupportsQualifiedId]:
+        """
+        Identifies objects absent from the target state that are not to be dropped.
+
+        These are objects whose removal is not permitted by the options, and objects that the former depend on.
+
+        :param ns_pairs: Namespaces to mutate, with an empty source namespace for a new namespace.
+        :param ns_drop: Namespaces to drop along with all objects within.
+        """
+
+        objects: dict[SupportsQualifiedId, DatabaseObject] = {}
+        pending: list[SupportsQualifiedId] = []
+        for source, target in ns_pairs:
+            for allow_drop, items in (
+                (self.options.allow_drop_table, source.tables.difference(target.tables)),
+                (self.options.allow_drop_struct, source.structs.difference(target.structs)),
+                (self.options.allow_drop_enum, source.enums.difference(target.enums)),
+            ):
+                for item in items:
+                    objects[item.name] = item
+                    if not allow_drop:
+                        pending.append(item.name)
+        for ns in ns_drop:
+            for item in get_objects(ns):
+                objects[item.name] = item
+                if not self.options.allow_drop_namespace:
+                    pending.append(item.name)
+
+        retained: set[SupportsQualifiedId] = set()
+        while pending:
+            name = pending.pop()
+            if name in retained or name not in objects:
+                continue
+            retained.add(name)
+
+            # retain objects that the object depends on
+            item = objects[name]
+            if isinstance(item, (StructType, Table)):
+                pending.extend(item.get_referenced_types())
+            if isinstance(item, Table):
+                pending.extend(
+                    c.reference.table
+                    for c in item.constraints.values()
+                    if isinstance(c, ForeignConstraint)
+                )
+
+            # retain the namespace that the object is in
+            for ns in ns_drop:
+                names = [o.name for o in get_objects(ns)]
+                if name in names:
+                    pending.extend(names)
+
+        return retained
+
     def _mutate_objects_stmt(
         self, ns_pairs: list[tuple[Namespace, Namespace]], ns_drop: list[Namespace]
     ) -> Optional[str]:
@@ -373,17 +439,14 @@ class Mutator:
             )
 
         # drop old objects
-        if not self.options.allow_drop_table:
-            table_drop.clear()
-        if not self.options.allow_drop_struct:
-            struct_drop.clear()
-        if not self.options.allow_drop_enum:
-            enum_drop.clear()
-        if self.options.allow_drop_namespace:
-            for ns in ns_drop:
-                table_drop.extend(ns.tables.values())
-                struct_drop.extend(ns.structs.values())
-                enum_drop.extend(ns.enums.values())
+        for ns in ns_drop:
+            table_drop.extend(ns.tables.values())
+            struct_drop.extend(ns.structs.values())
+            enum_drop.extend(ns.enums.values())
+        retained = self._get_retained(ns_pairs, ns_drop)
+        table_drop = [table for table in table_drop if table.name not in retained]
+        struct_drop = [struct for struct in struct_drop if struct.name not in retained]
+        enum_drop = [enum for enum in enum_drop if enum.name not in retained]
 
         # tables may refer to each other
         table_names = set(table.name for table in table_drop)
-- 
2.43.0


From 470606d8e32d99fea8d0570e3d14a53ed5f036b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 23/98] fix: refuse to change the primary key of a table

---
 pysqlsync/formation/mutation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 2d03723..1fd98de 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -170,6 +170,11 @@ class Mutator:
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         self.check_identity(source, target)
 
+        if source.primary_key != target.primary_key:
+            raise TableFormationError(
+                "operation not permitted; cannot change primary key", target.name
+            )
+
         statements: list[Optional[str]] = []
 
         create_columns = list(target.columns.difference(source.columns))
-- 
2.43.0


From 02eff03f3a1c2242ec96d2ba7350f3f4f1989fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 24/98] fix: make a migrated column non-nullable only after its
 values have been migrated

---
 pysqlsync/formation/mutation.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 1fd98de..36959ea 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -1,3 +1,4 @@
+import copy
 from dataclasses import dataclass
 from typing import Optional, Union
 
@@ -202,7 +203,10 @@ class Mutator:
                     statements.append(
                         source.alter_table_stmt([source_column.soft_drop_stmt()])
                     )
-                    create_stmts.append(target_column.create_stmt())
+                    # column takes its values in the course of data migration
+                    interim_column = copy.copy(target_column)
+                    interim_column.nullable = True
+                    create_stmts.append(interim_column.create_stmt())
                     migrated_columns.append(pair)
         except ColumnFormationError as e:
             raise TableFormationError(
@@ -232,6 +236,11 @@ class Mutator:
                     )
                 )
                 alter_stmts.append(source_column.hard_drop_stmt())
+                interim_column = copy.copy(target_column)
+                interim_column.nullable = True
+                alter_stmts.append(
+                    self.mutate_column_stmt(interim_column, target_column)
+                )
         except ColumnFormationError as e:
             raise TableFormationError(
                 "failed to migrate columns in table", target.name
@@ -239,10 +248,9 @@ class Mutator:
 
         # mutate existing columns as necessary
         try:
-            for source_column, target_column in common_columns:
-                alter_stmts.append(
-                    self.mutate_column_stmt(source_column, target_column)
-                )
+            for pair in common_columns:
+                if pair not in migrated_columns:
+                    alter_stmts.append(self.mutate_column_stmt(*pair))
         except ColumnFormationError as e:
             raise TableFormationError(
                 "failed to update columns in table", target.name
-- 
2.43.0


From b106b17d9b01d8f0b63d7d5628c5eca742d225d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 25/98] fix: refuse to change a column to an integer when its
 values cannot be migrated

---
 pysqlsync/dialect/mysql/mutation.py      |  2 +-
 pysqlsync/dialect/postgresql/mutation.py |  2 +-
 pysqlsync/formation/mutation.py          | 19 ++++++++++++++++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 9ba9245..f755307 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -20,7 +20,7 @@ class MySQLMutator(Mutator):
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
         statements: list[str] = []
-        ref = target_table.get_constraint(target.name)
+        ref = self.get_migration_reference(source, target_table, target)
         if isinstance(source.data_type, SqlEnumType):
             enum_values = ", ".join(f"({sql_quoted_string(v)})" for v in source.data_type.values)
             statements.append(
diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 03da4af..549a9a3 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -38,7 +38,7 @@ class PostgreSQLMutator(Mutator):
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
-        ref = target_table.get_constraint(target.name)
+        ref = self.get_migration_reference(source, target_table, target)
         return (
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 36959ea..15039ed 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -14,6 +14,7 @@ from .object_types import (
     Catalog,
     Column,
     ColumnFormationError,
+    ConstraintReference,
     DatabaseObject,
     EnumType,
     ForeignConstraint,
@@ -114,7 +115,23 @@ class Mutator:
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
-        return None
+        raise ColumnFormationError(
+            f"operation not permitted; cannot migrate data from {source.data_type} to {target.data_type}",
+            source.name,
+        )
+
+    def get_migration_reference(
+        self, source: Column, target_table: Table, target: Column
+    ) -> ConstraintReference:
+        "The lookup table that the values of a column are migrated to."
+
+        try:
+            return target_table.get_constraint(target.name)
+        except KeyError as e:
+            raise ColumnFormationError(
+                f"operation not permitted; cannot migrate data from {source.data_type} to {target.data_type} without a lookup table",
+                source.name,
+            ) from e
 
     def is_column_migrated(self, source: Column, target: Column) -> Optional[bool]:
         """
-- 
2.43.0


From 5bed4197ec91f6feaf03bfba1fd7f5c54e334464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 26/98] fix: drop the default constraint before changing a
 column's type in Microsoft SQL Server

---
 pysqlsync/dialect/mssql/mutation.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index e1dc60d..8d629dd 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -30,26 +30,35 @@ class MSSQLMutator(Mutator):
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements = StatementList()
 
-        constraints: list[str] = []
+        drop_constraints: list[str] = []
+        add_constraints: list[str] = []
         common_columns = source.columns.intersection(target.columns)
         for source_column, target_column in common_columns:
             source_def = source_column.default
             target_def = target_column.default
 
-            if source_def == target_def:
+            # a default constraint prevents the data type of the column from being changed
+            if (
+                source_def == target_def
+                and source_column.data_type == target_column.data_type
+            ):
                 continue
 
             target_default = typing.cast(MSSQLColumn, target_column)
             name = target_default.default_constraint_name()
             if source_def is not None:
-                constraints.append(f"DROP CONSTRAINT {name}")
+                drop_constraints.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
-                constraints.append(
+                add_constraints.append(
                     f"ADD CONSTRAINT {name} DEFAULT {target_default.default_expr} FOR {source_column.name}"
                 )
 
-        if constraints:
-            statements.append(source.alter_table_stmt(constraints))
+        if drop_constraints:
+            statements.append(source.alter_table_stmt(drop_constraints))
 
         statements.append(super().mutate_table_stmt(source, target))
+
+        if add_constraints:
+            statements.append(source.alter_table_stmt(add_constraints))
+
         return join_or_none(statements)
-- 
2.43.0


From d69f38c90f957ddf062ffa2f540d089cf50b0729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 27/98] fix: update descriptions of composite type members in
 PostgreSQL

---
 pysqlsync/dialect/postgresql/mutation.py | 19 +++++++++++++++++++
 pysqlsync/formation/mutation.py          |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 549a9a3..9b5dcb9 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -95,4 +95,23 @@ class PostgreSQLMutator(Mutator):
                     f"COMMENT ON TYPE {target.name} IS {sql_quoted_string(target.description)};"
                 )
 
+        for target_member in target.members.values():
+            source_member = source.members.get(target_member.name.id)
+
+            source_desc = (
+                source_member.description if source_member is not None else None
+            )
+            target_desc = target_member.description
+
+            if target_desc is None:
+                if source_desc is not None:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS NULL;"
+                    )
+            else:
+                if source_desc != target_desc:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS {sql_quoted_string(target_desc)};"
+                    )
+
         return join_or_none(statements)
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 15039ed..dd1e026 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -99,7 +99,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member != target_member:
+            if source_member.data_type != target_member.data_type:
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
-- 
2.43.0


From d569a95e95fb289fa5a42de8bb0fb329470d0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 28/98] fix: refuse to change the type of a member in a
 composite type that is in use

---
 pysqlsync/formation/mutation.py | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index dd1e026..32d76bc 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -393,6 +393,41 @@ class Mutator:
 
         return retained
 
+    def _check_structs(
+        self, ns_pairs: list[tuple[Namespace, Namespace]], ns_drop: list[Namespace]
+    ) -> None:
+        """
+        Ensures that no member changes its data type in a composite type that a table column uses.
+
+        :param ns_pairs: Namespaces to mutate, with an empty source namespace for a new namespace.
+        :param ns_drop: Namespaces to drop along with all objects within.
+        """
+
+        namespaces = [source for source, _ in ns_pairs] + ns_drop
+        structs = {x.name: x for ns in namespaces for x in ns.structs.values()}
+        pending = [
+            name
+            for ns in namespaces
+            for table in ns.tables.values()
+            for name in table.get_referenced_types()
+        ]
+        used: set[SupportsQualifiedId] = set()
+        while pending:
+            name = pending.pop()
+            if name not in used and name in structs:
+                used.add(name)
+                pending.extend(structs[name].get_referenced_types())
+
+        for source_ns, target_ns in ns_pairs:
+            for source, target in source_ns.structs.intersection(target_ns.structs):
+                if source.name not in used:
+                    continue
+                for old, new in source.members.intersection(target.members):
+                    if old.data_type != new.data_type:
+                        raise FormationError(
+                            f"operation not permitted; cannot change data type of {old.name} in {source.name}, which is in use"
+                        )
+
     def _mutate_objects_stmt(
         self, ns_pairs: list[tuple[Namespace, Namespace]], ns_drop: list[Namespace]
     ) -> Optional[str]:
@@ -426,6 +461,7 @@ class Mutator:
         statements.extend(struct.create_stmt() for struct in struct_create)
 
         # mutate existing types
+        self._check_structs(ns_pairs, ns_drop)
         for source_ns, target_ns in ns_pairs:
             statements.extend(
                 self.mutate_enum_stmt(source_enum, target_enum)
-- 
2.43.0


From 5ddc7e51506e511ce8bd3597d6bbc2562c334cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 29/98] fix: drop unique constraints before changing the type
 of their columns in Microsoft SQL Server

---
 pysqlsync/dialect/mssql/mutation.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 8d629dd..cbb090b 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -7,6 +7,7 @@ from pysqlsync.formation.object_types import (
     ColumnFormationError,
     StatementList,
     Table,
+    UniqueConstraint,
     join_or_none,
 )
 
@@ -32,7 +33,7 @@ class MSSQLMutator(Mutator):
 
         drop_constraints: list[str] = []
         add_constraints: list[str] = []
-        common_columns = source.columns.intersection(target.columns)
+        common_columns = list(source.columns.intersection(target.columns))
         for source_column, target_column in common_columns:
             source_def = source_column.default
             target_def = target_column.default
@@ -53,6 +54,22 @@ class MSSQLMutator(Mutator):
                     f"ADD CONSTRAINT {name} DEFAULT {target_default.default_expr} FOR {source_column.name}"
                 )
 
+        # so does a unique constraint
+        altered_columns = [
+            source_column.name
+            for source_column, target_column in common_columns
+            if source_column.data_type != target_column.data_type
+        ]
+        common_constraints = source.constraints.intersection(target.constraints)
+        for source_constraint, target_constraint in common_constraints:
+            if (
+                isinstance(source_constraint, UniqueConstraint)
+                and source_constraint == target_constraint
+                and any(c in altered_columns for c in source_constraint.unique_columns)
+            ):
+                drop_constraints.append(f"DROP CONSTRAINT {source_constraint.name}")
+                add_constraints.append(f"ADD CONSTRAINT {target_constraint.spec}")
+
         if drop_constraints:
             statements.append(source.alter_table_stmt(drop_constraints))
 
-- 
2.43.0


From 814c4eb6366220f032e05e53ea466136b6c5857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 30/98] fix: populate the lookup table with labels in use when
 migrating text columns in PostgreSQL

---
 pysqlsync/dialect/postgresql/mutation.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 9b5dcb9..27778b2 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -10,7 +10,12 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlIntegerType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlIntegerType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -38,13 +43,21 @@ class PostgreSQLMutator(Mutator):
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
+        statements: list[str] = []
         ref = self.get_migration_reference(source, target_table, target)
-        return (
+        source_name = LocalId(deleted(source.name.id))
+        if isinstance(source.data_type, SqlVariableCharacterType):
+            statements.append(
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name} FROM {source_table.name} WHERE {source_name} IS NOT NULL\n'
+                'ON CONFLICT ("value") DO NOTHING;'
+            )
+        statements.append(
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
             f"FROM {ref.table} enum_table\n"
-            f'WHERE data_table.{LocalId(deleted(source.name.id))}::VARCHAR = enum_table."value";'
+            f'WHERE data_table.{source_name}::VARCHAR = enum_table."value";'
         )
+        return "\n".join(statements)
 
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements: StatementList = StatementList()
-- 
2.43.0


From 51ab82f83601a81466238bb15d7fbfb38d741128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 31/98] fix: migrate text columns that have NULL values to a
 lookup table in MySQL

---
 pysqlsync/dialect/mysql/mutation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index f755307..5c41ad1 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -25,12 +25,13 @@ class MySQLMutator(Mutator):
             enum_values = ", ".join(f"({sql_quoted_string(v)})" for v in source.data_type.values)
             statements.append(
                 f'INSERT INTO {ref.table} ("value") VALUES {enum_values}\n'
-                'ON DUPLICATE KEY UPDATE "value" = "value";'
+                f'ON DUPLICATE KEY UPDATE "value" = {ref.table}."value";'
             )
         elif isinstance(source.data_type, SqlVariableCharacterType):
+            source_name = LocalId(deleted(source.name.id))
             statements.append(
-                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name}\n'
-                'ON DUPLICATE KEY UPDATE "value" = "value";'
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name} FROM {source_table.name} WHERE {source_name} IS NOT NULL\n'
+                f'ON DUPLICATE KEY UPDATE "value" = {ref.table}."value";'
             )
         statements.append(
             f"UPDATE {source_table.name} data_table\n"
-- 
2.43.0


From 9ff7aecce6b92ebc5e899cab7c9a759901a08007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 32/98] fix: carry over the description of a migrated column in
 PostgreSQL

---
 pysqlsync/dialect/postgresql/mutation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 27778b2..2387566 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -66,6 +66,12 @@ class PostgreSQLMutator(Mutator):
         for target_column in target.columns.values():
             source_column = source.columns.get(target_column.name.id)
 
+            # a migrated column is a new column
+            if source_column is not None and self.is_column_migrated(
+                source_column, target_column
+            ):
+                source_column = None
+
             source_desc = (
                 source_column.description if source_column is not None else None
             )
-- 
2.43.0


From 90f66f81272f6d89e4c6bb044e9baf31b032d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 33/98] fix: create a schema whose name has an apostrophe in
 Microsoft SQL Server

---
 pysqlsync/dialect/mssql/object_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index f5e1f29..6df6546 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -95,7 +95,7 @@ class MSSQLNamespace(Namespace):
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
             # Microsoft SQL Server requires a separate batch for creating a schema
-            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC('CREATE SCHEMA {self.name}');"
+            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC({quote(f'CREATE SCHEMA {self.name}')});"
         else:
             return None
 
-- 
2.43.0


From bd87ba13c984b2c5cb1d29d0b06e299326fded4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 34/98] fix: escape percent sign in names in statements that
 the MySQL driver formats

---
 pysqlsync/dialect/mysql/generator.py | 31 +++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index d7487fc..8da72e8 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -1,7 +1,7 @@
 import datetime
 import ipaddress
 import uuid
-from typing import Any, Callable, Optional
+from typing import Any, Callable, Optional, Union
 
 from pysqlsync.base import BaseGenerator, GeneratorOptions
 from pysqlsync.formation.inspection import is_ip_address_type
@@ -15,7 +15,7 @@ from pysqlsync.formation.py_to_sql import (
     StructMode,
 )
 from pysqlsync.model.data_types import SqlFixedBinaryType, SqlIntegerType
-from pysqlsync.model.id_types import LocalId
+from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.util.typing import override
 
 from .data_types import MySQLDateTimeType, MySQLVariableCharacterType
@@ -74,9 +74,9 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_id(table.name)}")
         columns = [column for column in table.get_columns(order) if not column.identity]
-        column_list = ", ".join(str(column.name) for column in columns)
+        column_list = ", ".join(_escape_id(column.name) for column in columns)
         value_list = ", ".join("%s" for column in columns)
         statements.append(f"({column_list}) VALUES ({value_list})")
         statements.append(";")
@@ -87,9 +87,9 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_id(table.name)}")
         columns = [column for column in table.get_columns(order) if not column.identity]
-        column_list = ", ".join(str(column.name) for column in columns)
+        column_list = ", ".join(_escape_id(column.name) for column in columns)
         value_list = ", ".join("%s" for column in columns)
         statements.append(f"({column_list}) VALUES ({value_list})")
         statements.append("ON DUPLICATE KEY UPDATE")
@@ -103,7 +103,7 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_id(table.name)}")
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
@@ -116,6 +116,11 @@ class MySQLGenerator(BaseGenerator):
         statements.append(";")
         return "\n".join(statements)
 
+    @override
+    def get_table_delete_stmt(self, table: Table) -> str:
+        column = table.get_primary_column()
+        return f"DELETE FROM {_escape_id(table.name)} WHERE {_escape_id(column.name)} = {self.placeholder(1)}"
+
     @override
     def get_field_extractor(
         self, column: Column, field_name: str, field_type: type
@@ -139,8 +144,18 @@ class MySQLGenerator(BaseGenerator):
         return super().get_value_transformer(column, field_type)
 
 
+def _escape_id(identifier: Union[LocalId, SupportsQualifiedId]) -> str:
+    """
+    Quotes an identifier to be embedded in the part of a statement that the driver formats with operator `%`.
+
+    (The driver does not format what follows the list of values in a bulk insert statement.)
+    """
+
+    return str(identifier).replace("%", "%%")
+
+
 def _field_list(field_ids: list[LocalId]) -> str:
-    field_list = ", ".join(str(field_id) for field_id in field_ids)
+    field_list = ", ".join(_escape_id(field_id) for field_id in field_ids)
     value_list = ", ".join("%s" for _ in field_ids)
     if False:
         # compatible with MySQL 8.0.19 and later, slow with aiomysql 0.2.0 and earlier
-- 
2.43.0


From 1ee0093732f0d6f49246876e5a98e66903a34cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 35/98] fix: do not split literals and names with a semicolon
 at the end of a line in Oracle and Redshift

---
 pysqlsync/dialect/oracle/connection.py   |  5 ++--
 pysqlsync/dialect/redshift/connection.py |  5 ++--
 pysqlsync/util/script.py                 | 34 ++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 6 deletions(-)
 create mode 100644 pysqlsync/util/script.py

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index 094a8fd..20f7887 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -1,5 +1,4 @@
 import logging
-import re
 import typing
 from typing import Callable, Iterable, Optional, TypeVar
 
@@ -22,6 +21,7 @@ from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 from .data_types import sql_to_oracle_type
@@ -77,8 +77,7 @@ class OracleContext(BaseContext):
             if statement.startswith("BEGIN"):
                 cur.execute(statement)
             else:
-                statement = statement.rstrip("\r\n\t\v ;")
-                for s in re.split(r";$", statement, flags=re.MULTILINE):
+                for s in split_statements(statement):
                     try:
                         cur.execute(s)
                     except Exception as e:
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 3277b0b..0dd584d 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -1,6 +1,5 @@
 import dataclasses
 import logging
-import re
 import typing
 from io import BytesIO
 from typing import Iterable, Optional, TypeVar
@@ -21,6 +20,7 @@ from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -71,8 +71,7 @@ class RedshiftContext(BaseContext):
             # The library `redshift_connector` executes all statements as prepared statements, which locks out
             # the possibility to execute multiple statements in one go. We artificially split SQL scripts into
             # multiple statements to work around this limitation in the connector.
-            statement = statement.rstrip("\r\n\t\v ;")
-            for s in re.split(r";$", statement, flags=re.MULTILINE):
+            for s in split_statements(statement, escape_literals=True):
                 try:
                     cursor.execute(s)
                 except Exception as e:
diff --git a/pysqlsync/util/script.py b/pysqlsync/util/script.py
new file mode 100644
index 0000000..3f6b14c
--- /dev/null
+++ b/pysqlsync/util/script.py
@@ -0,0 +1,34 @@
+import re
+
+# literals, quoted identifiers and comments may have a semicolon at the end of a line
+_STATEMENT = re.compile(
+    r"""
+    (?:
+        '[^']*'
+        | "[^"]*"
+        | --[^\n]*
+        | /\*.*?\*/
+        | [^;]
+        | ;(?!$)
+    )+
+    """,
+    re.DOTALL | re.MULTILINE | re.VERBOSE,
+)
+
+# PostgreSQL and its derivatives have literals with escape sequences
+_STATEMENT_ESCAPE = re.compile(
+    r"(?:\b[eE]'(?:\\.|[^'\\])*'|" + _STATEMENT.pattern.lstrip()[len("(?:") :],
+    re.DOTALL | re.MULTILINE | re.VERBOSE,
+)
+
+
+def split_statements(script: str, *, escape_literals: bool = False) -> list[str]:
+    """
+    Splits a SQL script into statements at semicolons at the end of a line.
+
+    :param script: The script to split.
+    :param escape_literals: Whether the dialect recognizes literals of the form `E'...'` with backslash escapes.
+    """
+
+    pattern = _STATEMENT_ESCAPE if escape_literals else _STATEMENT
+    return pattern.findall(script.rstrip("\r\n\t\v ;"))
-- 
2.43.0


From da4879818c15474e746efcc4418fbdccc64499d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 36/98] fix: escape backslash in check constraints of MySQL,
 and in enumeration labels and defaults of Snowflake and Delta Lake

---
 pysqlsync/dialect/delta/object_types.py     | 24 ++++++++++++++++++---
 pysqlsync/dialect/mysql/object_types.py     |  9 +++++---
 pysqlsync/dialect/snowflake/object_types.py | 21 +++++++++++++++---
 pysqlsync/formation/object_types.py         | 14 ++++++++++--
 pysqlsync/formation/py_to_sql.py            |  4 +++-
 5 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/pysqlsync/dialect/delta/object_types.py b/pysqlsync/dialect/delta/object_types.py
index e7a80b1..258e098 100644
--- a/pysqlsync/dialect/delta/object_types.py
+++ b/pysqlsync/dialect/delta/object_types.py
@@ -1,7 +1,13 @@
 import re
-from typing import Optional
-
-from pysqlsync.formation.object_types import Column, Namespace, ObjectFactory, Table
+from typing import Any, Optional
+
+from pysqlsync.formation.object_types import (
+    Column,
+    EnumTable,
+    Namespace,
+    ObjectFactory,
+    Table,
+)
 from pysqlsync.model.id_types import LocalId
 
 _sql_quoted_str_table = str.maketrans(
@@ -43,6 +49,14 @@ class DeltaTable(Table):
         return LocalId(f"pk_{self.name.local_id.replace('.', '_')}")
 
 
+class DeltaEnumTable(EnumTable, DeltaTable):
+    def value_expr(self, value: Any) -> str:
+        if isinstance(value, str):
+            return sql_quoted_string(value)
+        else:
+            return super().value_expr(value)
+
+
 class DeltaColumn(Column):
     @property
     def data_spec(self) -> str:
@@ -86,6 +100,10 @@ class DeltaObjectFactory(ObjectFactory):
     def table_class(self) -> type[Table]:
         return DeltaTable
 
+    @property
+    def enum_table_class(self) -> type[EnumTable]:
+        return DeltaEnumTable
+
     @property
     def namespace_class(self) -> type[Namespace]:
         return DeltaNamespace
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index fe1e071..d64e0d8 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -1,6 +1,6 @@
 import re
 from dataclasses import dataclass
-from typing import Optional
+from typing import Any, Optional
 
 from pysqlsync.formation.object_types import (
     Column,
@@ -54,8 +54,8 @@ class MySQLTable(Table):
 
 
 class MySQLEnumTable(EnumTable, MySQLTable):
-    def values_stmt(self) -> str:
-        return escape_backslash(super().values_stmt())
+    def value_expr(self, value: Any) -> str:
+        return escape_backslash(super().value_expr(value))
 
 
 @dataclass(eq=True)
@@ -124,6 +124,9 @@ class MySQLColumn(Column):
 
 
 class MySQLObjectFactory(ObjectFactory):
+    def constant(self, value: Any) -> str:
+        return escape_backslash(super().constant(value))
+
     @property
     def column_class(self) -> type[Column]:
         return MySQLColumn
diff --git a/pysqlsync/dialect/snowflake/object_types.py b/pysqlsync/dialect/snowflake/object_types.py
index c9c3b8c..09a0474 100644
--- a/pysqlsync/dialect/snowflake/object_types.py
+++ b/pysqlsync/dialect/snowflake/object_types.py
@@ -1,7 +1,7 @@
 import re
-from typing import Optional
+from typing import Any, Optional
 
-from pysqlsync.formation.object_types import Column, ObjectFactory, Table
+from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
 from pysqlsync.model.data_types import SqlTimestampType
 from pysqlsync.model.id_types import LocalId
 
@@ -46,6 +46,14 @@ class SnowflakeTable(Table):
         return LocalId(f"pk_{self.name.local_id.replace('.', '_')}")
 
 
+class SnowflakeEnumTable(EnumTable, SnowflakeTable):
+    def value_expr(self, value: Any) -> str:
+        if isinstance(value, str):
+            return sql_quoted_string(value)
+        else:
+            return super().value_expr(value)
+
+
 class SnowflakeColumn(Column):
     @property
     def default_expr(self) -> str:
@@ -60,7 +68,10 @@ class SnowflakeColumn(Column):
             if m:
                 return f"TIMESTAMP {self.default}"
 
-        return self.default
+        if self.default.startswith("'"):
+            return self.default.replace("\\", "\\\\")
+        else:
+            return self.default
 
     @property
     def data_spec(self) -> str:
@@ -86,3 +97,7 @@ class SnowflakeObjectFactory(ObjectFactory):
     @property
     def table_class(self) -> type[Table]:
         return SnowflakeTable
+
+    @property
+    def enum_table_class(self) -> type[EnumTable]:
+        return SnowflakeEnumTable
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 00ead10..ffcefee 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -628,6 +628,11 @@ class EnumTable(Table):
     def create_stmt(self) -> str:
         return "\n".join([super().create_stmt(), self.values_stmt()])
 
+    def value_expr(self, value: Any) -> str:
+        "Outputs an enumeration value as a literal."
+
+        return constant(value)
+
     def values_stmt(self) -> str:
         "Populates the table with enumeration values."
 
@@ -635,9 +640,9 @@ class EnumTable(Table):
         values: list[str] = []
         for value in self.values:
             if isinstance(value, tuple) or is_dataclass_instance(value):
-                values.append(constant(value))
+                values.append(self.value_expr(value))
             else:
-                values.append(f"({constant(value)})")
+                values.append(f"({self.value_expr(value)})")
         value_list = ", ".join(values)
 
         return f"INSERT INTO {self.name} ({column_list}) VALUES {value_list};"
@@ -911,6 +916,11 @@ class Catalog(DatabaseObject):
 class ObjectFactory:
     "Creates new column, table, struct and namespace instances."
 
+    def constant(self, value: Any) -> str:
+        "Outputs a constant value in the condition of a check constraint."
+
+        return constant(value)
+
     @property
     def column_class(self) -> type[Column]:
         "The object type instantiated for table columns."
diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index fa2ef56..7c356c7 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -787,7 +787,9 @@ class DataclassConverter:
 
         if self.options.check_constraints and self.options.enum_mode is EnumMode.CHECK:
             for enum_field in dataclass_fields_as_required(cls, is_type_enum):
-                enum_values = ", ".join(constant(e.value) for e in enum_field.type)
+                enum_values = ", ".join(
+                    self.options.factory.constant(e.value) for e in enum_field.type
+                )
                 constraints.append(
                     CheckConstraint(
                         LocalId(self.create_check_name(cls, enum_field.name)),
-- 
2.43.0


From 30ee9c2f564269e8d0e0dee991958187ebd73dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 37/98] fix: use unlimited text type when length exceeds what
 varchar can hold

---
 pysqlsync/dialect/mssql/data_types.py  | 8 +++++++-
 pysqlsync/dialect/mysql/data_types.py  | 8 ++++++++
 pysqlsync/dialect/oracle/data_types.py | 7 +++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index ee259e2..dc8451d 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -1,5 +1,5 @@
 import enum
-from typing import Optional
+from typing import Any, Optional
 
 import pyodbc
 
@@ -40,6 +40,12 @@ class MSSQLVariableCharacterType(SqlVariableCharacterType):
         super().__init__(limit)
         self.encoding = encoding
 
+    def parse_meta(self, meta: Any) -> None:
+        super().parse_meta(meta)
+        max_limit = 4000 if self.encoding is MSSQLEncoding.UTF16 else 8000
+        if self.limit is not None and self.limit > max_limit:
+            self.limit = None  # (n)varchar(max)
+
     def __str__(self) -> str:
         if self.encoding is MSSQLEncoding.UTF16:
             chartype = "nvarchar"
diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index 6361793..9b928e4 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 from pysqlsync.model.data_types import (
     SqlTimestampType,
     SqlVariableBinaryType,
@@ -15,6 +17,12 @@ class MySQLDateTimeType(SqlTimestampType):
 
 
 class MySQLVariableCharacterType(SqlVariableCharacterType):
+    def parse_meta(self, meta: Any) -> None:
+        super().parse_meta(meta)
+        if self.limit is not None and 16383 < self.limit < 16777216:
+            # exceeds maximum length for varchar with 4-byte UTF-8 character encoding
+            self.limit = 16777215  # mediumtext
+
     def __str__(self) -> str:
         if self.limit is None:
             return "mediumtext"
diff --git a/pysqlsync/dialect/oracle/data_types.py b/pysqlsync/dialect/oracle/data_types.py
index edf671e..1565239 100644
--- a/pysqlsync/dialect/oracle/data_types.py
+++ b/pysqlsync/dialect/oracle/data_types.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 import oracledb
 
 from pysqlsync.model.data_types import (
@@ -43,6 +45,11 @@ class OracleTimeType(SqlTimeType):
 
 
 class OracleVariableCharacterType(SqlVariableCharacterType):
+    def parse_meta(self, meta: Any) -> None:
+        super().parse_meta(meta)
+        if self.limit is not None and self.limit > 4000:
+            self.limit = None  # clob
+
     def __str__(self) -> str:
         if self.limit is not None and self.limit <= 4000:
             return f"varchar2({self.limit})"
-- 
2.43.0


From 22b805e5edb144287a7ebad8491945abbcee8318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 38/98] fix: use text types that can hold any text in Redshift
 and Delta Lake

---
 pysqlsync/dialect/delta/generator.py     |  3 +--
 pysqlsync/dialect/redshift/data_types.py | 13 ++++++++++++-
 pysqlsync/dialect/redshift/generator.py  |  6 +++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/delta/generator.py b/pysqlsync/dialect/delta/generator.py
index 98374a7..476fbef 100644
--- a/pysqlsync/dialect/delta/generator.py
+++ b/pysqlsync/dialect/delta/generator.py
@@ -15,7 +15,6 @@ from pysqlsync.formation.py_to_sql import (
     NamespaceMapping,
     StructMode,
 )
-from pysqlsync.model.data_types import SqlVariableCharacterType
 from pysqlsync.util.typing import override
 
 from .data_types import (
@@ -59,7 +58,7 @@ class DeltaGenerator(BaseGenerator):
                     float64: DeltaDoubleType(),
                     str: DeltaVariableCharacterType(),
                     uuid.UUID: DeltaFixedBinaryType(16),
-                    JsonType: SqlVariableCharacterType(),
+                    JsonType: DeltaVariableCharacterType(),
                     ipaddress.IPv4Address: DeltaFixedBinaryType(4),
                     ipaddress.IPv6Address: DeltaFixedBinaryType(16),
                 },
diff --git a/pysqlsync/dialect/redshift/data_types.py b/pysqlsync/dialect/redshift/data_types.py
index 712cbe8..9ce5535 100644
--- a/pysqlsync/dialect/redshift/data_types.py
+++ b/pysqlsync/dialect/redshift/data_types.py
@@ -1,4 +1,7 @@
-from pysqlsync.model.data_types import SqlVariableBinaryType
+from pysqlsync.model.data_types import (
+    SqlVariableBinaryType,
+    SqlVariableCharacterType,
+)
 
 
 class RedshiftVariableBinaryType(SqlVariableBinaryType):
@@ -8,3 +11,11 @@ class RedshiftVariableBinaryType(SqlVariableBinaryType):
         else:
             storage = ""
         return f"varbyte{storage}"
+
+
+class RedshiftVariableCharacterType(SqlVariableCharacterType):
+    def __str__(self) -> str:
+        if self.limit is not None:
+            return f"varchar({self.limit})"
+        else:
+            return "varchar(max)"  # `text` is a synonym for `varchar(256)`
diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 3a1a2cc..86e35aa 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -15,12 +15,11 @@ from pysqlsync.formation.py_to_sql import (
     NamespaceMapping,
     StructMode,
 )
-from pysqlsync.model.data_types import SqlVariableCharacterType
 from pysqlsync.util.typing import override
 
 from ..postgresql.mutation import PostgreSQLMutator
 from ..postgresql.object_types import PostgreSQLObjectFactory
-from .data_types import RedshiftVariableBinaryType
+from .data_types import RedshiftVariableBinaryType, RedshiftVariableCharacterType
 
 
 class RedshiftGenerator(BaseGenerator):
@@ -49,7 +48,8 @@ class RedshiftGenerator(BaseGenerator):
                 initialize_tables=options.initialize_tables,
                 substitutions={
                     uuid.UUID: RedshiftVariableBinaryType(16),
-                    JsonType: SqlVariableCharacterType(),
+                    str: RedshiftVariableCharacterType(),
+                    JsonType: RedshiftVariableCharacterType(),
                     ipaddress.IPv4Address: RedshiftVariableBinaryType(4),
                     ipaddress.IPv6Address: RedshiftVariableBinaryType(16),
                 },
-- 
2.43.0


From 4fe9f2c124c4fb2a844b078c1109b84584e2b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 39/98] fix: choose column types wide enough for unsigned and
 single-byte integers

---
 pysqlsync/formation/py_to_sql.py | 9 +++++++--
 pysqlsync/model/data_types.py    | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 7c356c7..d80db6f 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -391,12 +391,12 @@ class DataclassConverter:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
-                return SqlIntegerType(2)
+                return SqlIntegerType(4)  # next wider signed integer
         if typ is uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
-                return SqlIntegerType(4)
+                return SqlIntegerType(8)  # next wider signed integer
         if typ is uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
@@ -454,6 +454,11 @@ class DataclassConverter:
                     raise TypeError(f"unsupported annotated Python type: {typ}")
                 sql_type.parse_meta(meta)
 
+            if isinstance(sql_type, SqlIntegerType) and not sql_type.signed:
+                # use next wider signed integer
+                sql_type.width = min(2 * sql_type.width, 8)
+                sql_type.signed = True
+
             if sql_type:
                 return sql_type
 
diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index 61c1299..5f763fa 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -121,7 +121,7 @@ class SqlIntegerType(SqlDataType):
         elif isinstance(meta, Signed):
             self.signed = meta.is_signed
         elif isinstance(meta, Storage):
-            self.width = meta.bytes
+            self.width = max(meta.bytes, 2)  # not all engines have a signed byte type
         else:
             super().parse_meta(meta)
 
-- 
2.43.0


From 274ba9c62e45dfd3c6c27fc5d2f5242cacf28412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 40/98] fix: convert decimal precision of floating-point
 numbers to binary precision

---
 pysqlsync/model/data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index 5f763fa..0fb7e29 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -1,5 +1,6 @@
 import datetime
 import decimal
+import math
 from dataclasses import dataclass
 from functools import reduce
 from typing import Any, Optional
@@ -146,7 +147,10 @@ class SqlFloatType(SqlDataType):
 
     def parse_meta(self, meta: Any) -> None:
         if isinstance(meta, Precision):
-            self.precision = meta.significant_digits
+            # precision in base 10 to precision in base 2
+            self.precision = min(
+                math.ceil(meta.significant_digits * math.log2(10)), 53
+            )
         else:
             super().parse_meta(meta)
 
-- 
2.43.0


From 75f1a3f16cf6cd0bdb8afe51c4997b25a95bc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 41/98] fix: honor automatic defaults in MySQL

---
 pysqlsync/dialect/mysql/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 8da72e8..f94da76 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -58,6 +58,7 @@ class MySQLGenerator(BaseGenerator):
                 },
                 factory=self.factory,
                 skip_annotations=options.skip_annotations,
+                auto_default=options.auto_default,
             )
         )
 
-- 
2.43.0


From 81518cff7db1cdfa63243c5ca7b22f346a471003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 42/98] fix: retain unique constraints when foreign constraints
 are disabled

---
 pysqlsync/dialect/delta/generator.py     |  1 +
 pysqlsync/dialect/redshift/generator.py  |  1 +
 pysqlsync/dialect/snowflake/generator.py |  1 +
 pysqlsync/formation/py_to_sql.py         | 25 ++++++++++++------------
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/pysqlsync/dialect/delta/generator.py b/pysqlsync/dialect/delta/generator.py
index 476fbef..4932ecc 100644
--- a/pysqlsync/dialect/delta/generator.py
+++ b/pysqlsync/dialect/delta/generator.py
@@ -50,6 +50,7 @@ class DeltaGenerator(BaseGenerator):
                 namespaces=NamespaceMapping(options.namespaces),
                 check_constraints=False,
                 foreign_constraints=False,
+                unique_constraints=False,
                 initialize_tables=options.initialize_tables,
                 substitutions={
                     datetime.datetime: DeltaTimestampType(),
diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 86e35aa..f91cd7d 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -45,6 +45,7 @@ class RedshiftGenerator(BaseGenerator):
                 array_mode=options.array_mode or ArrayMode.JSON,
                 namespaces=NamespaceMapping(options.namespaces),
                 foreign_constraints=False,
+                unique_constraints=False,
                 initialize_tables=options.initialize_tables,
                 substitutions={
                     uuid.UUID: RedshiftVariableBinaryType(16),
diff --git a/pysqlsync/dialect/snowflake/generator.py b/pysqlsync/dialect/snowflake/generator.py
index 24e48dc..58971e9 100644
--- a/pysqlsync/dialect/snowflake/generator.py
+++ b/pysqlsync/dialect/snowflake/generator.py
@@ -45,6 +45,7 @@ class SnowflakeGenerator(BaseGenerator):
                 namespaces=NamespaceMapping(options.namespaces),
                 check_constraints=False,
                 foreign_constraints=False,
+                unique_constraints=False,
                 initialize_tables=options.initialize_tables,
                 substitutions={
                     datetime.datetime: SnowflakeDateTimeType(),
diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index d80db6f..1f3ca37 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -295,6 +295,7 @@ class DataclassConverterOptions:
     :param unique_constraint_names: Whether to generate constraint names that are globally unique.
     :param namespaces: Maps Python modules to SQL namespaces (schemas).
     :param foreign_constraints: Whether to create foreign/primary key relationships between tables.
+    :param unique_constraints: Whether to create unique constraints for table columns.
     :param check_constraints: Whether to create check constraints for table columns with a restricted set of values.
     :param initialize_tables: Whether to populate special tables (e.g. enumerations) with data.
     :param substitutions: SQL type to be substituted for a specific Python type.
@@ -311,6 +312,7 @@ class DataclassConverterOptions:
     unique_constraint_names: bool = True
     namespaces: NamespaceMapping = dataclasses.field(default_factory=NamespaceMapping)
     foreign_constraints: bool = True
+    unique_constraints: bool = True
     check_constraints: bool = True
     initialize_tables: bool = False
     substitutions: dict[TypeLike, SqlDataType] = dataclasses.field(default_factory=dict)
@@ -751,10 +753,8 @@ class DataclassConverter:
         except TypeError as e:
             raise TypeError(f"error processing data-class: {cls}") from e
 
-        # foreign/primary key constraints
-        constraints = []
-        if self.options.foreign_constraints:
-            constraints.extend(self.dataclass_to_constraints(cls))
+        # unique constraints and foreign/primary key constraints
+        constraints = self.dataclass_to_constraints(cls)
 
         # relationships for extensible enumeration types ignore foreign constraints option and always create a foreign key
         for enum_field in dataclass_fields_as_required(
@@ -840,15 +840,16 @@ class DataclassConverter:
 
         constraints: list[Constraint] = []
 
-        for field in dataclass_fields(cls):
-            props = get_field_properties(field.type)
-            if props.is_unique:
-                constraints.append(
-                    UniqueConstraint(
-                        LocalId(self.create_unique_key_name(cls, field.name)),
-                        (LocalId(field.name),),
+        if self.options.unique_constraints:
+            for field in dataclass_fields(cls):
+                props = get_field_properties(field.type)
+                if props.is_unique:
+                    constraints.append(
+                        UniqueConstraint(
+                            LocalId(self.create_unique_key_name(cls, field.name)),
+                            (LocalId(field.name),),
+                        )
                     )
-                )
 
         if self.options.foreign_constraints:
             for field in dataclass_fields_as_required(cls):
-- 
2.43.0


From c8720742e0815efa42c98f2ba6b16d6266a418dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 43/98] fix: sort classes of the same name by module

---
 pysqlsync/formation/py_to_sql.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 1f3ca37..b89f1cf 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -187,6 +187,12 @@ def dataclass_fields_as_required(
             yield DataclassField(field.name, ref, field.default)
 
 
+def _type_sort_key(typ: type) -> tuple[str, str]:
+    "Sorts types by name; types of the same name are told apart by the module in which they are defined."
+
+    return typ.__name__, typ.__module__
+
+
 def _topological_sort(class_types: list[type]) -> list[type]:
     """
     Returns a list of types in topological order.
@@ -1015,7 +1021,7 @@ class DataclassConverter:
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
             enum_types = [obj for obj in referenced_types if is_type_enum(obj)]
-            enum_types.sort(key=lambda e: e.__name__)
+            enum_types.sort(key=_type_sort_key)
             for enum_type in enum_types:
                 enum_values = [str(e.value) for e in enum_type]  # type: ignore
                 if len(enum_values) < 2:
@@ -1037,7 +1043,7 @@ class DataclassConverter:
         structs: dict[str, list[StructType]] = {}
         if self.options.struct_mode is StructMode.TYPE:
             struct_types = [obj for obj in referenced_types if is_struct_type(obj)]
-            struct_types.sort(key=lambda s: s.__name__)
+            struct_types.sort(key=_type_sort_key)
             struct_types = _topological_sort(struct_types)
             for struct_type in struct_types:
                 struct_defs = structs.setdefault(struct_type.__module__, [])
@@ -1046,7 +1052,7 @@ class DataclassConverter:
         # create tables
         tables: dict[str, list[Table]] = {}
         table_types = [obj for obj in referenced_types if is_entity_type(obj)]
-        table_types.sort(key=lambda t: t.__name__)
+        table_types.sort(key=_type_sort_key)
         for table_type in table_types:
             table_defs = tables.setdefault(table_type.__module__, [])
             table_defs.append(self.dataclass_to_table(table_type))
@@ -1071,7 +1077,7 @@ class DataclassConverter:
                 ):
                     regular_enum_types.add(unwrap_generic_set(enum_field.type))
 
-        for enum_type in sorted(list(regular_enum_types), key=lambda e: e.__name__):
+        for enum_type in sorted(list(regular_enum_types), key=_type_sort_key):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
@@ -1083,7 +1089,7 @@ class DataclassConverter:
             ):
                 enum_type = unwrap_extensible_enum_type(enum_field.type, entity)
                 extensible_enum_types.add(enum_type)
-        for enum_type in sorted(list(extensible_enum_types), key=lambda e: e.__name__):
+        for enum_type in sorted(list(extensible_enum_types), key=_type_sort_key):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
-- 
2.43.0


From 72bbd843a2819e755be956857d9c56b597ce4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 44/98] fix: order composite types deterministically

---
 pysqlsync/formation/py_to_sql.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index b89f1cf..63e6acc 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -29,6 +29,7 @@ from strong_typing.docstring import Docstring, parse_type
 from strong_typing.inspection import (
     DataclassField,
     DataclassInstance,
+    TypeCollector,
     TypeLike,
     dataclass_fields,
     enum_value_types,
@@ -49,7 +50,7 @@ from strong_typing.inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
-from strong_typing.topological import type_topological_sort
+from strong_typing.topological import topological_sort
 
 from ..model.data_types import (
     CompatibilityError,
@@ -203,7 +204,15 @@ def _topological_sort(class_types: list[type]) -> list[type]:
     :returns: A list of the same types but in topological order.
     """
 
-    return [t for t in type_topological_sort(class_types) if t in class_types]
+    collector = TypeCollector()
+    collector.traverse_all(class_types)
+
+    # visit types in an order that does not depend on the iteration order of sets
+    graph = {
+        typ: dict.fromkeys(sorted(refs, key=_type_sort_key)).keys()
+        for typ, refs in collector.graph.items()
+    }
+    return [t for t in topological_sort(graph) if t in class_types]  # type: ignore
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 90574e8127e62df99847030e193b036632a156e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 45/98] fix: report the failing statement when records cannot
 be written, and send nothing for an empty list of objects

---
 pysqlsync/base.py                          | 22 ++++++--
 pysqlsync/dialect/postgresql/connection.py | 59 +++++++++++++++-------
 pysqlsync/dialect/redshift/connection.py   |  7 ++-
 3 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0ef6a2c..44c7527 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -911,6 +911,22 @@ class BaseContext(abc.ABC):
 
         await self._execute_all(statement, source)
 
+    async def _execute_records(
+        self,
+        statement: str,
+        source: DataSource,
+        table: Table,
+        order: Optional[tuple[str, ...]] = None,
+    ) -> None:
+        "Executes a SQL statement with several records of data, reporting failure with the statement."
+
+        try:
+            await self._execute_typed(statement, source, table, order)
+        except QueryException:
+            raise
+        except Exception as e:
+            raise QueryException(statement) from e
+
     async def query_one(self, signature: type[T], statement: str) -> T:
         "Runs a query to produce a result-set of one or more columns, and a single row."
 
@@ -1089,7 +1105,7 @@ class BaseContext(abc.ABC):
         )
         order = tuple(name for name in field_names if name) if field_names else None
         statement = self.connection.generator.get_table_insert_stmt(table, order)
-        await self._execute_typed(statement, record_generator, table, order)
+        await self._execute_records(statement, record_generator, table, order)
 
     async def upsert_rows(
         self,
@@ -1148,7 +1164,7 @@ class BaseContext(abc.ABC):
         order = tuple(name for name in field_names if name) if field_names else None
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
-        await self._execute_typed(statement, record_generator, table, order)
+        await self._execute_records(statement, record_generator, table, order)
 
     async def _generate_records(
         self,
@@ -1301,7 +1317,7 @@ class BaseContext(abc.ABC):
 
         statement = generator.get_table_delete_stmt(table)
         order = (table.get_primary_column().name.local_id,)
-        await self._execute_typed(statement, source, table, order)
+        await self._execute_records(statement, source, table, order)
 
 
 def _module_or_list(
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 8f60568..dd370f7 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,14 +2,22 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, TypeVar, Union
+from typing import Iterable, Optional, Sized, TypeVar, Union
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
 
-from pysqlsync.base import BaseConnection, BaseContext, ClassRef, DataSource
+from pysqlsync.base import (
+    BaseConnection,
+    BaseContext,
+    ClassRef,
+    DataSource,
+    QueryException,
+    RecordType,
+)
 from pysqlsync.connection import ConnectionSSLMode, create_context
 from pysqlsync.formation.object_types import Table
+from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.typing import override
@@ -110,20 +118,18 @@ class PostgreSQLContext(BaseContext):
     async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         if not is_dataclass_type(table):
             raise TypeError(f"expected dataclass type, got: {table}")
+        if isinstance(data, Sized) and not len(data):
+            LOGGER.warning("no data to insert")
+            return
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
         records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        result = await self.native_connection.copy_records_to_table(
-            schema_name=table_name.scope_id,
-            table_name=table_name.local_id,
-            columns=tuple(
-                field.name
-                for field in dataclasses.fields(table)
-                if not is_identity_type(field.type)
-            ),
-            records=records,
-        )
-        LOGGER.debug(result)
+        columns = [
+            field.name
+            for field in dataclasses.fields(table)
+            if not is_identity_type(field.type)
+        ]
+        await self._copy_records(table_name, columns, records)
 
     @override
     async def _insert_rows(
@@ -138,11 +144,28 @@ class PostgreSQLContext(BaseContext):
             table, source, field_types=field_types, field_names=field_names
         )
         order = tuple(name for name in field_names if name) if field_names else None
+        columns = [col.name.local_id for col in table.get_columns(order)]
         async for batch in record_generator.batches():
+            await self._copy_records(table.name, columns, batch)
+
+    async def _copy_records(
+        self,
+        table_name: SupportsQualifiedId,
+        columns: list[str],
+        records: Iterable[RecordType],
+    ) -> None:
+        "Bulk loads records into a database table."
+
+        try:
             result = await self.native_connection.copy_records_to_table(
-                schema_name=table.name.scope_id,
-                table_name=table.name.local_id,
-                columns=[str(col.name.local_id) for col in table.get_columns(order)],
-                records=batch,
+                schema_name=table_name.scope_id,
+                table_name=table_name.local_id,
+                columns=columns,
+                records=records,
             )
-            LOGGER.debug(result)
+        except Exception as e:
+            column_list = ", ".join(str(LocalId(column)) for column in columns)
+            raise QueryException(
+                f"COPY {table_name} ({column_list}) FROM STDIN"
+            ) from e
+        LOGGER.debug(result)
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 0dd584d..b774f70 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import typing
 from io import BytesIO
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Optional, Sized, TypeVar
 
 import redshift_connector
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -105,6 +105,9 @@ class RedshiftContext(BaseContext):
     def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         if not is_dataclass_type(table):
             raise TypeError(f"expected dataclass type, got: {table}")
+        if isinstance(data, Sized) and not len(data):
+            LOGGER.warning("no data to insert")
+            return
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
         columns = [
@@ -159,5 +162,7 @@ class RedshiftContext(BaseContext):
         cursor = self.native_connection.cursor()
         try:
             cursor.execute(copy_query, stream=BytesIO(stream_data))
+        except Exception as e:
+            raise QueryException(copy_query) from e
         finally:
             cursor.close()
-- 
2.43.0


From 0c09e51dcc1d2061fb6c038f79b8c2a03d3936da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 46/98] fix: keep columns, placeholders and record items in
 step when items are omitted or identity columns are present

---
 pysqlsync/base.py                          | 78 ++++++++++++++++------
 pysqlsync/dialect/postgresql/connection.py |  8 ++-
 pysqlsync/dialect/redshift/connection.py   |  8 ++-
 3 files changed, 68 insertions(+), 26 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 44c7527..265434e 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1100,10 +1100,13 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        fields = self._get_record_fields(
+            table, field_types, field_names, skip_identity=True
+        )
         record_generator = await self._generate_records(
-            table, source, field_types=field_types, field_names=field_names
+            table, source, field_types=field_types, fields=fields
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(field_name for _, field_name in fields)
         statement = self.connection.generator.get_table_insert_stmt(table, order)
         await self._execute_records(statement, record_generator, table, order)
 
@@ -1158,50 +1161,85 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        fields = self._get_record_fields(
+            table, field_types, field_names, skip_identity=False
+        )
         record_generator = await self._generate_records(
-            table, source, field_types=field_types, field_names=field_names
+            table, source, field_types=field_types, fields=fields
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(field_name for _, field_name in fields)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
         await self._execute_records(statement, record_generator, table, order)
 
+    def _get_record_fields(
+        self,
+        table: Table,
+        field_types: tuple[type, ...],
+        field_names: Optional[tuple[str, ...]],
+        *,
+        skip_identity: bool,
+    ) -> list[tuple[int, str]]:
+        """
+        Returns the positions in a source record to pass to the database, and the columns that they correspond to.
+
+        Pass a list of field names when the order of fields in the source data does not match the column order
+        in the target table.
+
+        :param table: The database table descriptor.
+        :param field_types: Type of each record field. Use `types.NoneType` to omit a field.
+        :param field_names: Label for each record field. Use an empty string for an omitted field.
+        :param skip_identity: Whether to leave out identity columns, which are assigned a value by the database.
+        """
+
+        if not field_names:
+            columns = table.get_columns()
+            if skip_identity and len(field_types) < len(columns):
+                columns = [column for column in columns if not column.identity]
+            field_names = tuple(column.name.local_id for column in columns)
+
+        fields: list[tuple[int, str]] = []
+        for index, (field_type, field_name) in enumerate(zip(field_types, field_names)):
+            if field_type is type(None) or not field_name:
+                continue
+
+            column = table.columns.get(field_name)
+            if column is None:
+                raise ValueError(
+                    f"column {LocalId(field_name)} not found in table {table.name}"
+                )
+            if skip_identity and column.identity:
+                continue
+
+            fields.append((index, field_name))
+
+        return fields
+
     async def _generate_records(
         self,
         table: Table,
         source: DataSource,
         *,
         field_types: tuple[type, ...],
-        field_names: Optional[tuple[str, ...]] = None,
+        fields: list[tuple[int, str]],
     ) -> DataSource:
         """
         Creates a record generator for a database table.
 
-        Pass a list of field names when the order of fields in the source data does not match the column order
-        in the target table.
-
         :param table: The database table descriptor.
         :param source: The records to insert or update.
-        :param field_types: Type of each record field. Use `types.NoneType` to omit a field.
-        :param field_names: Label for each record field. Use an empty string for an omitted field.
+        :param field_types: Type of each record field.
+        :param fields: Position of each record field to include, and its label.
         """
 
         generator = self.connection.generator
 
-        if field_names is None:
-            field_names = tuple(name for name in table.columns.keys())
-
         indices: list[int] = []
         transformers: list[RecordTransformer] = []
-        for index, field_type, field_name in zip(
-            range(len(field_types)), field_types, field_names
-        ):
-            if field_type is type(None) or not field_name:
-                continue
-
+        for index, field_name in fields:
             indices.append(index)
             transformer = self._get_transformer(
-                table, generator, index, field_type, field_name
+                table, generator, index, field_types[index], field_name
             )
             transformers.append(transformer)
 
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index dd370f7..b5e1694 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -140,11 +140,13 @@ class PostgreSQLContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
+        fields = self._get_record_fields(
+            table, field_types, field_names, skip_identity=True
+        )
         record_generator = await self._generate_records(
-            table, source, field_types=field_types, field_names=field_names
+            table, source, field_types=field_types, fields=fields
         )
-        order = tuple(name for name in field_names if name) if field_names else None
-        columns = [col.name.local_id for col in table.get_columns(order)]
+        columns = [field_name for _, field_name in fields]
         async for batch in record_generator.batches():
             await self._copy_records(table.name, columns, batch)
 
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index b774f70..f8d9414 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -127,11 +127,13 @@ class RedshiftContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
-        order = tuple(name for name in field_names if name) if field_names else None
-        columns = [col.name for col in table.get_columns(order)]
+        fields = self._get_record_fields(
+            table, field_types, field_names, skip_identity=True
+        )
         record_generator = await self._generate_records(
-            table, source, field_types=field_types, field_names=field_names
+            table, source, field_types=field_types, fields=fields
         )
+        columns = [LocalId(field_name) for _, field_name in fields]
         async for batch in record_generator.batches():
             await self._insert_copy_stream_async(table.name, columns, batch)
 
-- 
2.43.0


From 614f630bbd654d147aa0d9ecab2239de470f78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 47/98] fix: update only the supplied columns of rows that have
 the supplied key on upsert

---
 pysqlsync/base.py                         | 25 ++++++++++++++++++-----
 pysqlsync/dialect/mysql/generator.py      |  2 +-
 pysqlsync/dialect/postgresql/generator.py |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 265434e..a3fa695 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -349,7 +349,21 @@ class BaseGenerator(abc.ABC):
         statements.append(";")
         return "\n".join(statements)
 
-    def _get_merge_preamble(self, table: Table, columns: list[Column]) -> list[str]:
+    def _get_upsert_match_columns(
+        self, table: Table, columns: list[Column]
+    ) -> list[Column]:
+        "Returns columns that identify the row to update: the primary key (if supplied), or unique columns."
+
+        primary_columns = [
+            column for column in columns if table.is_primary_column(column.name)
+        ]
+        if primary_columns:
+            return primary_columns
+        return [column for column in columns if table.is_unique_column(column)]
+
+    def _get_merge_preamble(
+        self, table: Table, columns: list[Column], match_columns: list[Column]
+    ) -> list[str]:
         "Builds the match condition of a SQL MERGE statement."
 
         statements: list[str] = []
@@ -361,7 +375,6 @@ class BaseGenerator(abc.ABC):
         )
         statements.append(f"USING (VALUES ({value_list})) source({column_list})")
 
-        match_columns = [column for column in columns if table.is_lookup_column(column)]
         if match_columns:
             match_condition = " OR ".join(
                 f"target.{column.name} = source.{column.name}"
@@ -381,7 +394,8 @@ class BaseGenerator(abc.ABC):
         """
 
         columns = [column for column in table.get_columns(order) if not column.identity]
-        statements = self._get_merge_preamble(table, columns)
+        match_columns = [column for column in columns if table.is_lookup_column(column)]
+        statements = self._get_merge_preamble(table, columns, match_columns)
 
         statements.append("WHEN NOT MATCHED THEN")
         column_list = ", ".join(str(column.name) for column in columns)
@@ -401,11 +415,12 @@ class BaseGenerator(abc.ABC):
         """
 
         columns = [column for column in table.get_columns(order)]
-        statements: list[str] = self._get_merge_preamble(table, columns)
+        match_columns = self._get_upsert_match_columns(table, columns)
+        statements: list[str] = self._get_merge_preamble(table, columns, match_columns)
 
         insert_columns = [column for column in columns if not column.identity]
         update_columns = [
-            column for column in insert_columns if not table.is_lookup_column(column)
+            column for column in insert_columns if column not in match_columns
         ]
         if update_columns:
             statements.append("WHEN MATCHED THEN")
diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index f94da76..4c21b14 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -108,7 +108,7 @@ class MySQLGenerator(BaseGenerator):
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         if value_columns:
             defs = [_field_update(column.name) for column in value_columns]
         else:
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 4baa8a0..07c9325 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -99,7 +99,7 @@ class PostgreSQLGenerator(BaseGenerator):
             self.placeholder(index) for index, _ in enumerate(columns, start=1)
         )
         statements.append(f"({column_list}) VALUES ({value_list})")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         keys = ", ".join(str(key) for key in table.primary_key)
         if value_columns:
             statements.append(f"ON CONFLICT ({keys}) DO UPDATE SET")
-- 
2.43.0


From 71c3f892ec2feebf0bb8eae7f317ad726f3f9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 48/98] fix: name the columns of a data class in insert and
 upsert statements, in field order

---
 pysqlsync/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index a3fa695..3699944 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -27,7 +27,12 @@ from typing import (
     overload,
 )
 
-from strong_typing.inspection import DataclassInstance, is_dataclass_type, is_type_enum
+from strong_typing.inspection import (
+    DataclassInstance,
+    dataclass_fields,
+    is_dataclass_type,
+    is_type_enum,
+)
 from strong_typing.name import python_type_to_str
 
 from .connection import ConnectionParameters
@@ -455,13 +460,15 @@ class BaseGenerator(abc.ABC):
         "Returns a SQL statement to insert or ignore records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_insert_stmt(table_object)
+        order = tuple(field.name for field in dataclass_fields(table))
+        return self.get_table_insert_stmt(table_object, order)
 
     def get_dataclass_upsert_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to insert or update records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_upsert_stmt(table_object)
+        order = tuple(field.name for field in dataclass_fields(table))
+        return self.get_table_upsert_stmt(table_object, order)
 
     def get_dataclass_delete_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to delete records from a database table."
-- 
2.43.0


From d02eedf75e3a39c5778792e0aada8ca38e4046bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 49/98] fix: encode fields of data-class objects and keys by
 their plain type, and look up enumeration labels in the object interface

---
 pysqlsync/base.py                          | 255 +++++++++++++++++----
 pysqlsync/dialect/oracle/generator.py      |  26 ++-
 pysqlsync/dialect/postgresql/connection.py |  21 +-
 pysqlsync/dialect/redshift/connection.py   |  24 +-
 4 files changed, 253 insertions(+), 73 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 3699944..0b0a185 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -29,14 +29,19 @@ from typing import (
 
 from strong_typing.inspection import (
     DataclassInstance,
+    TypeLike,
     dataclass_fields,
     is_dataclass_type,
+    is_generic_list,
+    is_generic_set,
     is_type_enum,
+    unwrap_annotated_type,
 )
 from strong_typing.name import python_type_to_str
+from strong_typing.serialization import object_to_json
 
 from .connection import ConnectionParameters
-from .formation.inspection import get_entity_types
+from .formation.inspection import get_entity_types, is_reference_type, reference_to_key
 from .formation.mutation import Mutator, MutatorOptions
 from .formation.object_types import (
     Catalog,
@@ -46,9 +51,17 @@ from .formation.object_types import (
     ObjectFactory,
     Table,
 )
-from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
-from .model.data_types import SqlJsonType, SqlVariableCharacterType
+from .formation.py_to_sql import (
+    ArrayMode,
+    DataclassConverter,
+    EnumMode,
+    StructMode,
+    is_extensible_enum_type,
+
+)
+from .model.data_types import SqlIntegerType, SqlJsonType, SqlVariableCharacterType
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
+from .model.properties import get_field_properties
 from .python_types import dataclass_to_code, module_to_code
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -60,7 +73,15 @@ RecordSource = Union[Iterable[RecordType], AsyncIterable[RecordType]]
 
 LOGGER = logging.getLogger("pysqlsync")
 
+
+def _json_default(obj: Any) -> Any:
+    if isinstance(obj, (set, frozenset)):
+        return list(obj)
+    raise TypeError(f"object of type {type(obj).__name__} is not JSON serializable")
+
+
 _JSON_ENCODER = json.JSONEncoder(
+    default=_json_default,
     ensure_ascii=False,
     check_circular=False,
     allow_nan=False,
@@ -68,6 +89,54 @@ _JSON_ENCODER = json.JSONEncoder(
     separators=(",", ":"),
 )
 
+
+def is_composite_type(field_type: TypeLike) -> bool:
+    "True if values of the field are objects or collections."
+
+    return (
+        is_dataclass_type(field_type)
+        or is_generic_list(field_type)
+        or is_generic_set(field_type)
+        or typing.get_origin(field_type) is dict
+        or field_type is dict
+        or field_type is list
+        or field_type is set
+    )
+
+
+def enum_to_value(item: Union[enum.Enum, str], as_text: bool) -> Any:
+    "Value to store in a column for a member of an enumeration."
+
+    value = item.value if isinstance(item, enum.Enum) else item
+    return str(value) if as_text else value
+
+
+def object_to_native(obj: Any, enum_as_text: bool) -> Any:
+    "Converts an object or collection into what database drivers accept for composite types and arrays."
+
+    if isinstance(obj, enum.Enum):
+        return enum_to_value(obj, enum_as_text)
+    elif dataclasses.is_dataclass(obj):
+        return {
+            field.name: object_to_native(getattr(obj, field.name), enum_as_text)
+            for field in dataclasses.fields(obj)
+        }
+    elif isinstance(obj, (list, set, frozenset)):
+        return [object_to_native(item, enum_as_text) for item in obj]
+    else:
+        return obj
+
+
+def _optional_extractor(
+    field_name: str, extractor: Callable[[Any], Any]
+) -> Callable[[Any], Any]:
+    "Wraps a field extractor such that it is not invoked for `None`."
+
+    return lambda obj: (
+        extractor(obj) if getattr(obj, field_name) is not None else None
+    )
+
+
 # number of records consumed from an asynchronous iterator before a batch is dispatched to a database
 BATCH_SIZE = 100000
 
@@ -511,23 +580,55 @@ class BaseGenerator(abc.ABC):
     ) -> tuple[Callable[[Any], Any], ...]:
         "Returns a tuple of callable function objects that extracts each field of a data-class."
 
-        return tuple(
-            self.get_field_extractor(
-                table.columns[field.name], field.name, typing.cast(type, field.type)
+        extractors: list[Callable[[Any], Any]] = []
+        for field in dataclass_fields(entity_type):
+            column = table.columns[field.name]
+            if skip_identity and column.identity:
+                continue
+
+            props = get_field_properties(field.type)
+            plain_type = props.plain_type
+            if is_reference_type(plain_type, entity_type):
+                plain_type = reference_to_key(plain_type, entity_type)
+            plain_type = unwrap_annotated_type(plain_type)
+
+            extractor = self.get_field_extractor(
+                column, field.name, typing.cast(type, plain_type)
             )
-            for field in dataclasses.fields(entity_type)
-            if not (skip_identity and table.columns[field.name].identity)
-        )
+            if props.nullable:
+                extractor = _optional_extractor(field.name, extractor)
+            extractors.append(extractor)
+
+        return tuple(extractors)
 
     def get_field_extractor(
         self, column: Column, field_name: str, field_type: type
     ) -> Callable[[Any], Any]:
-        "Returns a callable function object that extracts a single field of a data-class."
+        """
+        Returns a callable function object that extracts a single field of a data-class.
 
-        if is_type_enum(field_type):
-            return lambda obj: getattr(obj, field_name).value
-        else:
-            return lambda obj: getattr(obj, field_name)
+        :param column: The column that stores the field value.
+        :param field_name: The name of the data-class field.
+        :param field_type: Type of field, without annotations, and not optional.
+        """
+
+        if isinstance(column.data_type, SqlJsonType) or (
+            isinstance(column.data_type, SqlVariableCharacterType)
+            and is_composite_type(field_type)
+        ):
+            return lambda obj: _JSON_ENCODER.encode(
+                object_to_json(getattr(obj, field_name))
+            )
+
+        if is_composite_type(field_type):
+            enum_as_text = self.converter.options.enum_mode is EnumMode.TYPE
+            return lambda obj: object_to_native(getattr(obj, field_name), enum_as_text)
+
+        if is_type_enum(field_type) or is_extensible_enum_type(field_type, object):
+            as_text = not isinstance(column.data_type, SqlIntegerType)
+            return lambda obj: enum_to_value(getattr(obj, field_name), as_text)
+
+        return lambda obj: getattr(obj, field_name)
 
     def get_value_transformer(
         self, column: Column, field_type: type
@@ -541,7 +642,11 @@ class BaseGenerator(abc.ABC):
             return lambda field: _JSON_ENCODER.encode(field)
 
         if is_type_enum(field_type):
-            return lambda field: field.value
+            as_text = not isinstance(column.data_type, SqlIntegerType)
+            return lambda field: enum_to_value(field, as_text)
+        elif field_type is str and isinstance(column.data_type, SqlIntegerType):
+            # textual representation of an enumeration with integer values
+            return int
         else:
             return None
 
@@ -681,12 +786,14 @@ class EnumTransformer(BaseEnumTransformer):
         "Returns a callable function object that looks up an assigned integer value based on the enumeration string value."
 
         # a single enumeration value represented as a string
-        values: set[Optional[str]] = set()
+        values: set[str] = set()
         for record in records:
-            values.add(record[self.index])
-        values.discard(None)  # do not insert NULL into referenced table
-        enum_dict = await self._merge_lookup_table(typing.cast(set[str], values))
-        return self.generator.get_enum_transformer(enum_dict)
+            value = record[self.index]
+            if value is not None:  # do not insert NULL into referenced table
+                values.add(enum_to_value(value, True))
+        enum_dict = await self._merge_lookup_table(values)
+        fn = self.generator.get_enum_transformer(enum_dict)
+        return lambda field: fn(enum_to_value(field, True))
 
 
 class EnumListTransformer(BaseEnumTransformer):
@@ -698,12 +805,14 @@ class EnumListTransformer(BaseEnumTransformer):
         "Returns a callable function object that looks up assigned integer values based on a list of enumeration string values."
 
         # a list of enumeration values represented as a list of strings
-        values: set[Optional[str]] = set()
+        values: set[str] = set()
         for record in records:
-            values.update(record[self.index])
-        values.discard(None)  # do not insert NULL into referenced table
-        enum_list_dict = await self._merge_lookup_table(typing.cast(set[str], values))
-        return self.generator.get_enum_list_transformer(enum_list_dict)
+            items = record[self.index]
+            if items is not None:
+                values.update(enum_to_value(item, True) for item in items)
+        enum_list_dict = await self._merge_lookup_table(values)
+        fn = self.generator.get_enum_list_transformer(enum_list_dict)
+        return lambda field: fn([enum_to_value(item, True) for item in field])
 
 
 class DataSource:
@@ -1047,8 +1156,8 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_insert_stmt(table)
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        await self.execute_all(statement, records)
+        source = self._get_object_source(table, data, skip_identity=True)
+        await self._execute_source(statement, source)
 
     async def upsert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts or updates data in the database table corresponding to the dataclass type."
@@ -1059,8 +1168,51 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_upsert_stmt(table)
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=False)
-        await self.execute_all(statement, records)
+        source = self._get_object_source(table, data, skip_identity=False)
+        await self._execute_source(statement, source)
+
+    def _get_object_source(
+        self, entity_type: type[D], data: Iterable[D], *, skip_identity: bool
+    ) -> DataSource:
+        "Creates a source of records for a database table from data-class objects."
+
+        generator = self.connection.generator
+        table = self.get_table(entity_type)
+
+        source = IterableDataSource(
+            generator.get_dataclasses_as_records(
+                entity_type, data, skip_identity=skip_identity
+            )
+        )
+        transformers: list[RecordTransformer] = []
+        for field in dataclass_fields(entity_type):
+            column = table.columns[field.name]
+            if skip_identity and column.identity:
+                continue
+
+            plain_type = get_field_properties(field.type).plain_type
+            relation: Optional[Table] = None
+            if is_type_enum(plain_type) or is_extensible_enum_type(
+                plain_type, entity_type
+            ):
+                relation = self._get_lookup_table(table, column)
+
+            if relation is not None:
+                index = len(transformers)
+                transformers.append(EnumTransformer(self, relation, generator, index))
+            else:
+                transformers.append(ScalarTransformer(None))
+        return TransformerDataSource(source, transformers)
+
+    async def _execute_source(self, statement: str, source: DataSource) -> None:
+        "Executes a SQL statement with records from a data source, reporting failure with the statement."
+
+        try:
+            await self._execute_all(statement, source)
+        except QueryException:
+            raise
+        except Exception as e:
+            raise QueryException(statement) from e
 
     async def delete_data(
         self, table: type[DataclassInstance], keys: Iterable[Any]
@@ -1073,7 +1225,20 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_delete_stmt(table)
-        await self.execute_all(statement, ((key,) for key in keys))
+        column = self.get_table(table).get_primary_column()
+        key_type = next(
+            get_field_properties(field.type).plain_type
+            for field in dataclass_fields(table)
+            if field.name == column.name.local_id
+        )
+        transformer = generator.get_value_transformer(
+            column, typing.cast(type, key_type)
+        )
+        if transformer is not None:
+            records = ((transformer(key),) for key in keys)
+        else:
+            records = ((key,) for key in keys)
+        await self.execute_all(statement, records)
 
     async def insert_rows(
         self,
@@ -1303,17 +1468,11 @@ class BaseContext(abc.ABC):
 
         transformer = generator.get_value_transformer(column, field_type)
 
-        if not table.is_relation(column):
-            return ScalarTransformer(transformer)
-        relation = generator.state.get_referenced_table(table.name, column.name)
-        if not relation.is_lookup_table():
+        relation = self._get_lookup_table(table, column)
+        if relation is None:
             return ScalarTransformer(transformer)
 
-        LOGGER.debug(
-            "found lookup table column %s in table %s", column.name, table.name
-        )
-
-        if field_type is str:
+        if field_type is str or is_type_enum(field_type):
             return EnumTransformer(
                 self,
                 relation,
@@ -1330,6 +1489,24 @@ class BaseContext(abc.ABC):
         else:
             return ScalarTransformer(transformer)
 
+    def _get_lookup_table(self, table: Table, column: Column) -> Optional[Table]:
+        "Returns the table that assigns an integer key to each label in the column, if any."
+
+        if not table.is_relation(column):
+            return None
+
+        state = self.connection.generator.state
+        relation = state.get_referenced_table(table.name, column.name)
+        if not relation.is_lookup_table():
+            return None
+        if not isinstance(relation.get_primary_column().data_type, SqlIntegerType):
+            return None
+
+        LOGGER.debug(
+            "found lookup table column %s in table %s", column.name, table.name
+        )
+        return relation
+
     async def delete_rows(
         self, table: Table, key_type: type, key_values: Iterable[Any]
     ) -> None:
diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index cfa03d9..7a7ccec 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -38,8 +38,18 @@ from .data_types import (
 )
 from .object_types import OracleObjectFactory
 
-MIN_DATETIME = datetime.datetime.min.replace(tzinfo=datetime.timezone.utc)
-MIN_DATE = datetime.date.min
+
+def time_to_interval(time: datetime.time) -> datetime.timedelta:
+    "Converts a time of day (in UTC unless it has a time zone) into the interval elapsed since midnight."
+
+    interval = datetime.timedelta(
+        hours=time.hour,
+        minutes=time.minute,
+        seconds=time.second,
+        microseconds=time.microsecond,
+    )
+    offset = time.utcoffset()
+    return interval - offset if offset is not None else interval
 
 
 class OracleGenerator(BaseGenerator):
@@ -107,12 +117,7 @@ class OracleGenerator(BaseGenerator):
         elif is_ip_address_type(field_type):
             return lambda obj: getattr(obj, field_name).packed
         elif field_type is datetime.time:
-            return (
-                lambda obj: datetime.datetime.combine(
-                    MIN_DATE, getattr(obj, field_name)
-                )
-                - MIN_DATETIME
-            )
+            return lambda obj: time_to_interval(getattr(obj, field_name))
 
         return super().get_field_extractor(column, field_name, field_type)
 
@@ -125,9 +130,6 @@ class OracleGenerator(BaseGenerator):
         elif is_ip_address_type(field_type):
             return lambda field: field.packed
         elif field_type is datetime.time:
-            return (
-                lambda field: datetime.datetime.combine(datetime.date.min, field)
-                - datetime.datetime.min
-            )
+            return time_to_interval
 
         return super().get_value_transformer(column, field_type)
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index b5e1694..4b823c2 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -1,16 +1,18 @@
-import dataclasses
 import logging
 import ssl
 import typing
 from typing import Iterable, Optional, Sized, TypeVar, Union
 
 import asyncpg
-from strong_typing.inspection import DataclassInstance, is_dataclass_type
+from strong_typing.inspection import (
+    DataclassInstance,
+    dataclass_fields,
+    is_dataclass_type,
+)
 
 from pysqlsync.base import (
     BaseConnection,
     BaseContext,
-    ClassRef,
     DataSource,
     QueryException,
     RecordType,
@@ -18,7 +20,6 @@ from pysqlsync.base import (
 from pysqlsync.connection import ConnectionSSLMode, create_context
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
-from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.typing import override
 
@@ -121,15 +122,15 @@ class PostgreSQLContext(BaseContext):
         if isinstance(data, Sized) and not len(data):
             LOGGER.warning("no data to insert")
             return
-        generator = self.connection.generator
-        table_name = generator.get_qualified_id(ClassRef(table))
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
+        table_object = self.get_table(table)
         columns = [
             field.name
-            for field in dataclasses.fields(table)
-            if not is_identity_type(field.type)
+            for field in dataclass_fields(table)
+            if not table_object.columns[field.name].identity
         ]
-        await self._copy_records(table_name, columns, records)
+        source = self._get_object_source(table, data, skip_identity=True)
+        async for batch in source.batches():
+            await self._copy_records(table_object.name, columns, batch)
 
     @override
     async def _insert_rows(
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index f8d9414..c9a3945 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -1,23 +1,24 @@
-import dataclasses
 import logging
 import typing
 from io import BytesIO
 from typing import Iterable, Optional, Sized, TypeVar
 
 import redshift_connector
-from strong_typing.inspection import DataclassInstance, is_dataclass_type
+from strong_typing.inspection import (
+    DataclassInstance,
+    dataclass_fields,
+    is_dataclass_type,
+)
 
 from pysqlsync.base import (
     BaseConnection,
     BaseContext,
-    ClassRef,
     DataSource,
     QueryException,
     RecordType,
 )
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
-from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.script import split_statements
@@ -101,22 +102,21 @@ class RedshiftContext(BaseContext):
                 return resultset_unwrap_tuple(signature, records)
 
     @override
-    @thread_dispatch
-    def insert_data(self, table: type[D], data: Iterable[D]) -> None:
+    async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         if not is_dataclass_type(table):
             raise TypeError(f"expected dataclass type, got: {table}")
         if isinstance(data, Sized) and not len(data):
             LOGGER.warning("no data to insert")
             return
-        generator = self.connection.generator
-        table_name = generator.get_qualified_id(ClassRef(table))
+        table_object = self.get_table(table)
         columns = [
             LocalId(field.name)
-            for field in dataclasses.fields(table)
-            if not is_identity_type(field.type)
+            for field in dataclass_fields(table)
+            if not table_object.columns[field.name].identity
         ]
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        self._insert_copy_stream(table_name, columns, records)
+        source = self._get_object_source(table, data, skip_identity=True)
+        async for batch in source.batches():
+            await self._insert_copy_stream_async(table_object.name, columns, batch)
 
     @override
     async def _insert_rows(
-- 
2.43.0


From dfe58723ce6aa00ce2caaddcb6e7b92cfcd0f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 50/98] fix: retain default factories when a data class is
 turned into an entity

---
 pysqlsync/model/entity_types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/model/entity_types.py b/pysqlsync/model/entity_types.py
index c0f809d..7e12dd3 100644
--- a/pysqlsync/model/entity_types.py
+++ b/pysqlsync/model/entity_types.py
@@ -42,17 +42,24 @@ def make_entity(cls: type[DataclassInstance], key: str) -> type[DataclassInstanc
 
     key_field, value_fields = key_value_fields(cls, key)
     key_type = key_field.type
+    defaults = {field.name: field for field in dataclasses.fields(cls)}
+
+    def default_of(name: str) -> dataclasses.Field:
+        return dataclasses.field(
+            default=defaults[name].default,
+            default_factory=defaults[name].default_factory,
+        )
 
     primary_key_type = PrimaryKey[key_type]  # type: ignore
     target_fields: list[tuple[str, Any, dataclasses.Field]] = [
-        (key_field.name, primary_key_type, dataclasses.field(default=key_field.default))
+        (key_field.name, primary_key_type, default_of(key_field.name))
     ]
     for value_field in value_fields:
         target_fields.append(
             (
                 value_field.name,
                 value_field.type,
-                dataclasses.field(default=value_field.default),
+                default_of(value_field.name),
             )
         )
 
-- 
2.43.0


From b24fcda4dc690c017183b2c4a309493c10e7ece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:30 +0000
Subject: [PATCH 51/98] fix: flatten structures at any level of nesting

---
 pysqlsync/util/dataclasses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/util/dataclasses.py b/pysqlsync/util/dataclasses.py
index 6dadfb5..420dab1 100644
--- a/pysqlsync/util/dataclasses.py
+++ b/pysqlsync/util/dataclasses.py
@@ -69,8 +69,8 @@ def flatten_dataclass(
         props = get_field_properties(field.type)
         plain_type = props.plain_type
         if is_struct_type(plain_type):
-            nested_docstring = parse_type(plain_type)
-            for subfield in dataclass_fields(plain_type):
+            nested_fields, nested_docstring = flatten_dataclass(plain_type)
+            for subfield in nested_fields:
                 name = f"{field.name}__{subfield.name}"
                 fields.append(
                     DataclassField(
-- 
2.43.0


From 3075f7b626fc0557fad4df1550298f85312d2e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 52/98] fix: retain sign, range and dialect-specific properties
 in common data type

---
 pysqlsync/model/data_types.py | 46 +++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index 0fb7e29..428cdf1 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -1,9 +1,10 @@
+import copy
 import datetime
 import decimal
 import math
 from dataclasses import dataclass
 from functools import reduce
-from typing import Any, Optional
+from typing import Any, Optional, TypeVar
 
 from strong_typing.auxiliary import (
     IntegerRange,
@@ -365,11 +366,46 @@ def max_or_none(left: Optional[int], right: Optional[int]) -> Optional[int]:
         return max(left, right)
 
 
+D = TypeVar("D", bound=SqlDataType)
+
+
+def _replace(data_type: D, **changes: Any) -> D:
+    "Returns a copy of a data type (of the same database-specific class) with some of its properties changed."
+
+    result = copy.copy(data_type)
+    for name, value in changes.items():
+        setattr(result, name, value)
+    return result
+
+
+def _compatible_integer_type(
+    left: SqlIntegerType, right: SqlIntegerType
+) -> SqlIntegerType:
+    width = max(left.width, right.width)
+    signed = left.signed or right.signed
+    if signed:
+        # an unsigned type requires the next wider signed type
+        width = max(t.width if t.signed else 2 * t.width for t in (left, right))
+        if width > 8:
+            raise CompatibilityError()
+
+    minimum: Optional[int] = None
+    if left.minimum is not None and right.minimum is not None:
+        minimum = min(left.minimum, right.minimum)
+    return _replace(
+        left,
+        width=width,
+        signed=signed,
+        minimum=minimum,
+        maximum=max_or_none(left.maximum, right.maximum),
+    )
+
+
 def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
     """
     Returns a common type that can represent instances of both source types without data loss.
 
-    The implementation makes use of `type(...)` to ensure the most specific class is instantiated when
+    The implementation makes use of `type(...)` or makes a copy to ensure the most specific class is instantiated when
     database-specific data types are created with inheritance.
     """
 
@@ -378,7 +414,7 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
 
     # integer types
     if isinstance(left, SqlIntegerType) and isinstance(right, SqlIntegerType):
-        return type(left)(width=max(left.width, right.width))
+        return _compatible_integer_type(left, right)
 
     # floating-point types
     if isinstance(left, SqlRealType):
@@ -395,10 +431,10 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
         if isinstance(right, SqlFixedCharacterType):
             return type(left)(limit=max_or_none(left.limit, right.limit))
         elif isinstance(right, SqlVariableCharacterType):
-            return type(right)(limit=max_or_none(left.limit, right.limit))
+            return _replace(right, limit=max_or_none(left.limit, right.limit))
     elif isinstance(left, SqlVariableCharacterType):
         if isinstance(right, (SqlFixedCharacterType, SqlVariableCharacterType)):
-            return type(left)(limit=max_or_none(left.limit, right.limit))
+            return _replace(left, limit=max_or_none(left.limit, right.limit))
 
     # binary types
     if isinstance(left, SqlFixedBinaryType):
-- 
2.43.0


From c37692259a0d091cc4ff78507600e8b851acea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 53/98] fix: extensible enumeration has an enumeration among
 its member types

---
 pysqlsync/formation/py_to_sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 63e6acc..7b49913 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -164,7 +164,7 @@ def is_extensible_enum_type(typ: TypeLike, cls: type) -> bool:
         member_type = unwrap_annotated_type(member_type)
         if member_type is not str and not is_type_enum(member_type):
             return False
-    return True
+    return any(is_type_enum(member_type) for member_type in member_types)
 
 
 def unwrap_extensible_enum_type(typ: TypeLike, cls: type) -> type[enum.Enum]:
-- 
2.43.0


From ab438de47a7c6ed72ecd852afdcb2f73ca8cbcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 54/98] fix: length of random text when lower limit is large or
 upper limit is zero

---
 pysqlsync/data/generator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index 8d6dec5..f1eed52 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -259,10 +259,16 @@ class RandomGenerator:
             return lambda _: random_time()
         elif plain_type is str:
             min_length_tag = get_annotation(field_type, MinLength)
-            # use a minimum length of at least 1; Oracle treats empty string as equivalent to NULL
-            min_length = min_length_tag.value if min_length_tag is not None else 1
             max_length_tag = get_annotation(field_type, MaxLength)
-            max_length = max_length_tag.value if max_length_tag is not None else 255
+            # use a minimum length of at least 1; Oracle treats empty string as equivalent to NULL
+            if min_length_tag is not None:
+                min_length = min_length_tag.value
+            else:
+                min_length = 1 if max_length_tag is None else min(1, max_length_tag.value)
+            if max_length_tag is not None:
+                max_length = max_length_tag.value
+            else:
+                max_length = max(255, min_length)
             return lambda _: random_alphanumeric_str(min_length, max_length)
         elif plain_type is decimal.Decimal:
             precision = get_annotation(field_type, Precision)
-- 
2.43.0


From 0f76ccc5bcd70855a65f1e8fe72534443b9b5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 55/98] fix: optional fields are occasionally omitted in random
 objects

---
 pysqlsync/data/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index f1eed52..d171ae8 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -228,8 +228,8 @@ class RandomGenerator:
 
             raise DataGeneratorError(f"unknown key type: {plain_type}")
 
-        if value_properties.nullable:
-            optional_generator = self.create(field_type, cls)
+        if field_properties.nullable:
+            optional_generator = self.create(field_properties.field_type, cls)
             return lambda k: (
                 optional_generator(k) if random.uniform(0.0, 1.0) > 0.1 else None
             )
-- 
2.43.0


From 07a83bd016a2eece3f61efd00a47e45a32096c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 56/98] fix: generated Python code can be executed

---
 pysqlsync/python_types.py | 56 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index ccb9c5e..c0567f2 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -1,13 +1,15 @@
 import dataclasses
+import datetime
 import enum
 import inspect
 import io
+import math
 import re
 import sys
 import textwrap
 import typing
 from types import ModuleType
-from typing import TextIO
+from typing import Any, TextIO
 
 from strong_typing.docstring import has_docstring, parse_type
 from strong_typing.inspection import (
@@ -25,20 +27,38 @@ def module_to_stream(module: ModuleType, target: TextIO) -> None:
     print("from __future__ import annotations", file=target)
     print("import dataclasses", file=target)
     print("import enum", file=target)
-    print("from datetime import datetime, date, time", file=target)
+    print(
+        "from datetime import datetime, date, time, timedelta, timezone", file=target
+    )
     print("from decimal import Decimal", file=target)
+    print("from ipaddress import IPv4Address, IPv6Address", file=target)
     print("from uuid import UUID", file=target)
     print(
         "from typing import Annotated, Dict, List, Literal, Optional, Union",
         file=target,
     )
     print(
-        "from strong_typing.auxiliary import int16, int32, int64, float32, float64, MaxLength, Precision, TimePrecision",
+        "from strong_typing.auxiliary import int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64",
+        file=target,
+    )
+    print(
+        "from strong_typing.auxiliary import IntegerRange, Length, MaxLength, MinLength, Precision, Signed, Storage, TimePrecision",
+        file=target,
+    )
+    print(
+        "from pysqlsync.model.key_types import DEFAULT, DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag",
+        file=target,
+    )
+    print(file=target)
+    print("# tags in annotations", file=target)
+    print(
+        "Identity, PrimaryKey, Unique = IdentityTag(), PrimaryKeyTag(), UniqueTag()",
         file=target,
     )
     print(file=target)
 
-    for cls in get_module_classes(module):
+    # default values of data-class fields may refer to enumeration members
+    for cls in sorted(get_module_classes(module), key=lambda c: not is_type_enum(c)):
         if is_type_enum(cls):
             enum_class_to_stream(cls, target)
         elif is_dataclass_type(cls):
@@ -109,7 +129,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
 
         field_initializer: dict[str, str] = {}
         if field.default is not dataclasses.MISSING:
-            field_initializer["default"] = repr(field.default)
+            field_initializer["default"] = _value_to_str(field.default)
         if field.default_factory is not dataclasses.MISSING:
             field_initializer["default_factory"] = fmt.python_type_to_str(
                 field.default_factory
@@ -120,15 +140,18 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
         if not field_initializer:
             initializer = ""
         elif field.default is not dataclasses.MISSING and len(field_initializer) == 1:
-            initializer = f" = {repr(field.default)}"
+            initializer = f" = {_value_to_str(field.default)}"
         else:
             initializer_list = ", ".join(
                 f"{key} = {value}" for key, value in field_initializer.items()
             )
-            initializer = f" = field({initializer_list})"
+            initializer = f" = dataclasses.field({initializer_list})"
 
         print(f"    {field.name}: {type_name}{initializer}", file=target)
 
+    if not variables and not field_names:
+        print("    pass", file=target)
+
 
 def dataclasses_to_stream(types: list[type[DataclassInstance]], target: TextIO) -> None:
     "Generates Python code corresponding to a set of dataclass types."
@@ -182,10 +205,29 @@ def enum_class_to_code(enum_class: type[enum.Enum]) -> str:
         return out.getvalue()
 
 
+def _value_to_str(value: Any) -> str:
+    "Returns a Python expression that evaluates to the value."
+
+    if isinstance(value, enum.Enum):
+        return f"{type(value).__name__}.{value.name}"
+    elif isinstance(value, float) and not math.isfinite(value):
+        return f"float('{value}')"
+    elif isinstance(
+        value, (datetime.datetime, datetime.date, datetime.time, datetime.timedelta)
+    ):
+        # classes are imported by name
+        return repr(value).replace("datetime.", "")
+    else:
+        return repr(value)
+
+
 def _wrap_print(text: str, file: TextIO) -> None:
     if not text:
         return
 
+    # text is part of a string literal
+    text = text.replace("\\", "\\\\").replace('"', '\\"')
+
     # wrap long lines
     for line in textwrap.wrap(
         text,
-- 
2.43.0


From ec0a9a141a0b33a59b4e67bd6ea7dabd99e537c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 57/98] fix: auxiliary types are recognised by equality, not by
 identity

---
 pysqlsync/formation/py_to_sql.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 7b49913..a149437 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -388,40 +388,40 @@ class DataclassConverter:
             return SqlIntegerType(8)
         if typ is float:
             return SqlDoubleType()
-        if typ is int8:
+        if typ == int8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("int1"))
             else:
                 return SqlIntegerType(2)
-        if typ is int16:
+        if typ == int16:
             return SqlIntegerType(2)
-        if typ is int32:
+        if typ == int32:
             return SqlIntegerType(4)
-        if typ is int64:
+        if typ == int64:
             return SqlIntegerType(8)
-        if typ is uint8:
+        if typ == uint8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint1"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint16:
+        if typ == uint16:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
                 return SqlIntegerType(4)  # next wider signed integer
-        if typ is uint32:
+        if typ == uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
                 return SqlIntegerType(8)  # next wider signed integer
-        if typ is uint64:
+        if typ == uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
             else:
                 return SqlIntegerType(8)
-        if typ is float32:
+        if typ == float32:
             return SqlRealType()
-        if typ is float64:
+        if typ == float64:
             return SqlDoubleType()
         if typ is str:
             return SqlVariableCharacterType()
-- 
2.43.0


From ab040ea7b662d42677161a75df161fc3aba10428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:01 +0000
Subject: [PATCH 58/98] fix: data classes derived from tables describe keys,
 references, defaults and types of the tables

---
 pysqlsync/formation/sql_to_py.py | 159 ++++++++++++++++++++++++++++---
 1 file changed, 144 insertions(+), 15 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 3e80ad7..d10192d 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -1,25 +1,37 @@
 import dataclasses
 import datetime
 import decimal
+import ipaddress
 import keyword
+import math
+import re
 import sys
 import types
 import typing
+from collections.abc import Callable
 from dataclasses import dataclass
 from io import StringIO
 from typing import Annotated, Any, Optional, Union
 from uuid import UUID
 
 from strong_typing.auxiliary import (
+    IntegerRange,
     Length,
     MaxLength,
     Precision,
+    Signed,
+    Storage,
     TimePrecision,
     float32,
     float64,
+    int8,
     int16,
     int32,
     int64,
+    uint8,
+    uint16,
+    uint32,
+    uint64,
 )
 from strong_typing.core import JsonType
 from strong_typing.inspection import DataclassInstance, TypeLike
@@ -42,8 +54,8 @@ from ..model.data_types import (
     SqlUuidType,
     SqlVariableCharacterType,
 )
-from ..model.id_types import SupportsQualifiedId
-from ..model.key_types import PrimaryKey
+from ..model.id_types import GlobalId, SupportsQualifiedId
+from ..model.key_types import Identity, PrimaryKey, Unique
 from .object_types import (
     Column,
     DiscriminatedConstraint,
@@ -52,11 +64,70 @@ from .object_types import (
     Table,
 )
 
+BUILTIN_TYPES: dict[str, TypeLike] = {
+    "inet": Union[ipaddress.IPv4Address, ipaddress.IPv6Address],
+    "int1": int8,
+    "uint1": uint8,
+    "uint2": uint16,
+    "uint4": uint32,
+    "uint8": uint64,
+}
+"Types that a database engine (or its extension) defines outside of any namespace."
+
+
+def _integer_with_range(sql_type: SqlIntegerType) -> TypeLike:
+    "Python type for an integer type that is unsigned or is restricted to a range."
+
+    if sql_type.minimum is None and sql_type.maximum is None:
+        unsigned_types = {1: uint8, 2: uint16, 4: uint32, 8: uint64}
+        return unsigned_types[sql_type.width]
+
+    bits = 8 * sql_type.width
+    minimum = sql_type.minimum
+    if minimum is None:
+        minimum = -(2 ** (bits - 1)) if sql_type.signed else 0
+    maximum = sql_type.maximum
+    if maximum is None:
+        maximum = 2 ** (bits - 1 if sql_type.signed else bits) - 1
+    return Annotated[
+        int,
+        Signed(sql_type.signed),
+        Storage(sql_type.width),
+        IntegerRange(minimum, maximum),
+    ]
+
+
+def _float_digits(precision: int) -> int:
+    "Converts precision in base 2 to the number of significant digits in base 10."
+
+    digits = math.floor(precision * math.log10(2))
+    if precision >= 53:
+        digits += 1  # largest precision that a floating-point type may have
+    return max(digits, 1)
+
+
+def sql_type_to_python(
+    sql_type: SqlDataType,
+    type_reference: Callable[[SupportsQualifiedId], TypeLike] = lambda id: (
+        id.compact_id
+    ),
+) -> TypeLike:
+    """
+    Finds the Python type that corresponds to a SQL type.
+
+    :param sql_type: The SQL type to convert.
+    :param type_reference: Produces a reference to the Python class for a user-defined type.
+    """
 
-def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     if isinstance(sql_type, SqlBooleanType):
         return bool
     elif isinstance(sql_type, SqlIntegerType):
+        if (
+            not sql_type.signed
+            or sql_type.minimum is not None
+            or sql_type.maximum is not None
+        ):
+            return _integer_with_range(sql_type)
         if sql_type.width == 2:
             return int16
         elif sql_type.width == 4:
@@ -70,9 +141,13 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
         return float64
     elif isinstance(sql_type, SqlFloatType):
         if sql_type.precision is not None:
-            return Annotated[float, Precision(sql_type.precision)]
+            return Annotated[float, Precision(_float_digits(sql_type.precision))]
         return float
     elif isinstance(sql_type, SqlDecimalType):
+        if sql_type.precision is not None:
+            return Annotated[
+                decimal.Decimal, Precision(sql_type.precision, sql_type.scale or 0)
+            ]
         return decimal.Decimal
     elif isinstance(sql_type, SqlTimestampType):
         if sql_type.precision is not None:
@@ -97,14 +172,51 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     elif isinstance(sql_type, SqlJsonType):
         return JsonType
     elif isinstance(sql_type, SqlUserDefinedType):
-        return sql_type.ref.compact_id
+        if isinstance(sql_type.ref, GlobalId) and sql_type.ref.id in BUILTIN_TYPES:
+            return BUILTIN_TYPES[sql_type.ref.id]
+        return type_reference(sql_type.ref)
     elif isinstance(sql_type, SqlArrayType):
-        item_type = (sql_type_to_python(sql_type.element_type),)
+        item_type = sql_type_to_python(sql_type.element_type, type_reference)
         return list[item_type]  # type: ignore
 
     raise TypeError(f"unrecognized SQL type: {sql_type}")
 
 
+def sql_constant_to_python(sql_type: SqlDataType, expr: str) -> Any:
+    """
+    Evaluates a SQL constant that acts as the default value for a column.
+
+    :param sql_type: The type of the column.
+    :param expr: The SQL expression to evaluate.
+    :returns: A Python value, or `dataclasses.MISSING` if the expression has no equivalent in Python.
+    """
+
+    m = re.fullmatch(r"'((?:[^']|'')*)'", expr, re.DOTALL)
+    literal = m.group(1).replace("''", "'") if m is not None else None
+
+    try:
+        if isinstance(sql_type, (SqlFixedCharacterType, SqlVariableCharacterType)):
+            return literal if literal is not None else dataclasses.MISSING
+        elif isinstance(sql_type, SqlBooleanType):
+            return {"true": True, "false": False, "1": True, "0": False}[expr.lower()]
+        elif isinstance(sql_type, SqlIntegerType):
+            return int(expr)
+        elif isinstance(sql_type, (SqlRealType, SqlDoubleType, SqlFloatType)):
+            return float(expr)
+        elif isinstance(sql_type, SqlDecimalType):
+            return decimal.Decimal(expr)
+        elif literal is not None and isinstance(sql_type, SqlTimestampType):
+            return datetime.datetime.fromisoformat(literal)
+        elif literal is not None and isinstance(sql_type, SqlDateType):
+            return datetime.date.fromisoformat(literal)
+        elif literal is not None and isinstance(sql_type, SqlTimeType):
+            return datetime.time.fromisoformat(literal)
+    except (ArithmeticError, KeyError, ValueError):
+        pass
+
+    return dataclasses.MISSING
+
+
 def safe_id(id: str) -> str:
     "Apply PEP 8: single trailing underscore to avoid conflicts with Python keyword"
 
@@ -122,8 +234,17 @@ class SqlConverter:
     def __init__(self, options: SqlConverterOptions) -> None:
         self.options = options
 
-    def qual_to_module(self, id: SupportsQualifiedId) -> str:
-        return f"{self.options.namespaces[id.scope_id].__name__}.{safe_id(id.local_id)}"
+    def qual_to_module(self, id: SupportsQualifiedId) -> typing.ForwardRef:
+        "A reference to a class, which is possibly yet to be added to its module."
+
+        module = self.options.namespaces[id.scope_id]
+        return typing.ForwardRef(safe_id(id.local_id), module=module.__name__)
+
+    def qual_to_type(self, id: SupportsQualifiedId) -> TypeLike:
+        "A class that corresponds to a user-defined type."
+
+        module = self.options.namespaces[id.scope_id]
+        return getattr(module, safe_id(id.local_id), self.qual_to_module(id))
 
     def column_to_field(
         self, table: Table, column: Column
@@ -138,13 +259,9 @@ class SqlConverter:
 
         default: Any = dataclasses.MISSING
         if column.default is not None:
-            default = column.default
+            default = sql_constant_to_python(column.data_type, column.default)
 
-        field_type = sql_type_to_python(column.data_type)
-        if column.name == table.primary_key:
-            field_type = PrimaryKey[(field_type,)]  # type: ignore
-        elif column.nullable:
-            field_type = Optional[field_type]
+        field_type = sql_type_to_python(column.data_type, self.qual_to_type)
 
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
@@ -159,10 +276,22 @@ class SqlConverter:
                 union_types = tuple(self.qual_to_module(r.table) for r in c.references)
                 field_type = Union[union_types]
 
+        if column.identity:
+            field_type = Identity[field_type]  # type: ignore
+        if (column.name,) == table.primary_key:
+            field_type = PrimaryKey[field_type]  # type: ignore
+        elif table.is_unique_column(column):
+            field_type = Unique[field_type]  # type: ignore
+        if column.nullable:
+            field_type = Optional[field_type]
+
         # use cast to ensure compatibility with signature of `make_dataclass`
         data_type = typing.cast(type, field_type)
 
-        return (field_name, data_type, dataclasses.field(default=default))
+        field = dataclasses.field(
+            default=default, metadata={"description": column.description}
+        )
+        return (field_name, data_type, field)
 
     def table_to_dataclass(self, table: Table) -> type[DataclassInstance]:
         """
-- 
2.43.0


From ce2ff9fbfd37b9d8de255d41edce931d3acf0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:29 +0000
Subject: [PATCH 59/98] fix: annotations to skip are ignored on fields of any
 type

---
 pysqlsync/formation/py_to_sql.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index a149437..ecebd44 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -183,7 +183,7 @@ def dataclass_fields_as_required(
 ) -> Iterable[DataclassField]:
     for field in dataclass_fields(cls):
         props = get_field_properties(field.type)
-        ref = evaluate_member_type(props.field_type, cls)
+        ref = evaluate_member_type(props.plain_type, cls)
         if pred is None or pred(ref):
             yield DataclassField(field.name, ref, field.default)
 
@@ -377,7 +377,20 @@ class DataclassConverter:
     def create_check_name(self, cls: type, field: str) -> str:
         return f"ch_{self.create_qualified_prefix(cls)}_{field}"
 
+    def remove_skipped_annotations(self, typ: TypeLike) -> TypeLike:
+        "Removes those annotations from a type that are to be ignored on a column type."
+
+        metadata = getattr(typ, "__metadata__", None) or ()
+        relevant = tuple(
+            m for m in metadata if not isinstance(m, self.options.skip_annotations)
+        )
+        if len(relevant) == len(metadata):
+            return typ
+        plain_type = unwrap_annotated_type(typ)
+        return Annotated[(plain_type, *relevant)] if relevant else plain_type
+
     def simple_type_to_sql_data_type(self, typ: TypeLike) -> SqlDataType:
+        typ = self.remove_skipped_annotations(typ)
         substitute = self.options.substitutions.get(typ)
         if substitute is not None:
             return substitute
@@ -461,12 +474,9 @@ class DataclassConverter:
             elif unadorned_type is datetime.time:
                 sql_type = SqlTimeType()
             else:
-                # avoid error when only skipped annotations are applied to a custom type
                 sql_type = None
 
             for meta in metadata:
-                if isinstance(meta, self.options.skip_annotations):
-                    continue
                 if sql_type is None:
                     raise TypeError(f"unsupported annotated Python type: {typ}")
                 sql_type.parse_meta(meta)
@@ -567,6 +577,7 @@ class DataclassConverter:
         :param cls: The context for the type, typically the dataclass in which the member is defined.
         """
 
+        typ = self.remove_skipped_annotations(typ)
         substitute = self.options.substitutions.get(typ)
         if substitute is not None:
             return substitute
-- 
2.43.0


From dc94491b03be6484d08fbeba9a68c6bbe6971d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 60/98] fix: enumeration members as default values of fields

---
 pysqlsync/formation/py_to_sql.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ecebd44..e1cef73 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -688,6 +688,18 @@ class DataclassConverter:
 
         raise TypeError(f"unsupported data type: {typ}")
 
+    def enum_default_value(self, member: enum.Enum) -> Optional[str]:
+        "Converts an enumeration member into a default value for a column."
+
+        if self.options.enum_mode is EnumMode.RELATION:
+            # column refers to an entry in a lookup table
+            return None
+        elif self.options.enum_mode is EnumMode.CHECK:
+            return constant(member.value)
+        else:
+            # column takes labels
+            return constant(str(member.value))
+
     def member_to_column(
         self, field: DataclassField, cls: type[DataclassInstance], doc: Docstring
     ) -> Column:
@@ -695,8 +707,14 @@ class DataclassConverter:
 
         props = get_field_properties(field.type)
         data_type = self.member_to_sql_data_type(props.field_type, cls)
+        default_value: Optional[str]
 
-        if field.default is not dataclasses.MISSING and field.default is not None:
+        if is_extensible_enum_type(props.plain_type, cls):
+            # column refers to an entry in a lookup table
+            default_value = None
+        elif isinstance(field.default, enum.Enum):
+            default_value = self.enum_default_value(field.default)
+        elif field.default is not dataclasses.MISSING and field.default is not None:
             default_value = constant(field.default)
         elif (
             self.options.auto_default
@@ -706,9 +724,6 @@ class DataclassConverter:
         ):
             if is_reference_type(props.plain_type, cls):
                 plain_type = reference_to_key(props.plain_type, cls)
-            elif is_extensible_enum_type(props.plain_type, cls):
-                # column refers to an entry in a lookup table
-                plain_type = None
             elif is_type_union(props.plain_type):
                 member_types = [
                     evaluate_member_type(t, cls)
@@ -732,6 +747,7 @@ class DataclassConverter:
                 plain_type = None
 
             default_expr: Any = None
+            default_value = None
             if plain_type is not None:
                 plain_type = unwrap_annotated_type(plain_type)
                 if plain_type is datetime.datetime:
@@ -741,11 +757,13 @@ class DataclassConverter:
                 elif plain_type is datetime.time:
                     default_expr = datetime.time.min
                 elif is_type_enum(plain_type):
-                    if self.options.enum_mode is not EnumMode.RELATION:
-                        default_expr = next(member.value for member in plain_type)
+                    default_value = self.enum_default_value(
+                        next(member for member in plain_type)
+                    )
                 elif plain_type in (bool, int, float, str, decimal.Decimal):
                     default_expr = plain_type()
-            default_value = constant(default_expr) if default_expr is not None else None
+            if default_expr is not None:
+                default_value = constant(default_expr)
         else:
             default_value = None
 
-- 
2.43.0


From 2e43af51f167b5a9cba9d8bf67669653f9ba2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:27 +0000
Subject: [PATCH 61/98] fix: default of a column of an enumeration type is a
 member of the class

---
 pysqlsync/formation/sql_to_py.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index d10192d..e841d81 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -34,7 +34,7 @@ from strong_typing.auxiliary import (
     uint64,
 )
 from strong_typing.core import JsonType
-from strong_typing.inspection import DataclassInstance, TypeLike
+from strong_typing.inspection import DataclassInstance, TypeLike, is_type_enum
 
 from ..model.data_types import (
     SqlArrayType,
@@ -53,6 +53,7 @@ from ..model.data_types import (
     SqlUserDefinedType,
     SqlUuidType,
     SqlVariableCharacterType,
+    constant,
 )
 from ..model.id_types import GlobalId, SupportsQualifiedId
 from ..model.key_types import Identity, PrimaryKey, Unique
@@ -262,6 +263,10 @@ class SqlConverter:
             default = sql_constant_to_python(column.data_type, column.default)
 
         field_type = sql_type_to_python(column.data_type, self.qual_to_type)
+        if column.default is not None and is_type_enum(field_type):
+            for member in field_type:
+                if column.default == constant(str(member.value)):
+                    default = member
 
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
-- 
2.43.0


From b636f0ca711ec086c024f5d61794761977674069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 62/98] fix: change the type of a composite type member only if
 its SQL type differs

---
 pysqlsync/formation/mutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 32d76bc..df036fb 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -99,7 +99,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member.data_type != target_member.data_type:
+            if str(source_member.data_type) != str(target_member.data_type):
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
@@ -423,7 +423,7 @@ class Mutator:
                 if source.name not in used:
                     continue
                 for old, new in source.members.intersection(target.members):
-                    if old.data_type != new.data_type:
+                    if str(old.data_type) != str(new.data_type):
                         raise FormationError(
                             f"operation not permitted; cannot change data type of {old.name} in {source.name}, which is in use"
                         )
-- 
2.43.0


From a195c2e68deecdb7b7c2311c6593389e529a8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 63/98] fix: recognise a user-defined type whose name is that
 of a built-in type

---
 pysqlsync/formation/data_types.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index e5abc76..d8941e2 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -153,9 +153,13 @@ class SqlDiscovery:
     ) -> SqlDataType:
         "Determines the column type from SQL column attribute data extracted from the information schema table."
 
-        sql_type: Optional[SqlDataType] = None
-        if type_schema is None or type_schema == "pg_catalog" or type_schema == "SYS":
-            sql_type = copy.copy(self.options.substitutions.get(type_name))
+        if type_schema is not None and type_schema not in ("pg_catalog", "SYS"):
+            # a user-defined type may have the same name as a built-in type
+            return SqlUserDefinedType(QualifiedId(type_schema, type_name))
+
+        sql_type: Optional[SqlDataType] = copy.copy(
+            self.options.substitutions.get(type_name)
+        )
 
         if sql_type is None and type_def is not None:
             sql_type = self.sql_data_type_from_def(type_def)
-- 
2.43.0


From da37683b39b8ec0cbfd15782ba8951891768b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 64/98] fix: PostgreSQL: recognise precision and time zone of
 date and time types, and intervals

---
 pysqlsync/dialect/postgresql/discovery.py |  8 +++++++-
 pysqlsync/formation/data_types.py         | 10 ++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 17a7481..1678024 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -16,7 +16,12 @@ from pysqlsync.formation.object_types import (
     StructType,
     Table,
 )
-from pysqlsync.model.data_types import SqlArrayType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlArrayType,
+    SqlIntervalType,
+    SqlUserDefinedType,
+    quote,
+)
 from pysqlsync.model.id_types import GlobalId, LocalId, QualifiedId, SupportsQualifiedId
 
 from .data_types import PostgreSQLJsonType
@@ -107,6 +112,7 @@ class PostgreSQLExplorer(Explorer):
                 substitutions={
                     "jsonb": PostgreSQLJsonType(),
                     "inet": SqlUserDefinedType(GlobalId("inet")),
+                    "interval": SqlIntervalType(),
                 }
             )
         )
diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index d8941e2..7400c56 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -99,15 +99,17 @@ class SqlDiscovery:
             return SqlDecimalType(int(m.group(1)), int(m.group(2)))
 
         m = re.fullmatch(
-            r"^timestamp[(](\d+)[)]\s*(with(?:out)? time zone)?$",
+            r"^(timestamp|time)(?:[(](\d+)[)])?\s*(with(?:out)? time zone)?$",
             type_def,
             re.IGNORECASE,
         )
         if m is not None:
-            if m.group(2) == "with time zone":
-                return SqlTimestampType(int(m.group(1)), True)
+            precision = int(m.group(2)) if m.group(2) is not None else None
+            with_time_zone = (m.group(3) or "").lower() == "with time zone"
+            if m.group(1).lower() == "timestamp":
+                return SqlTimestampType(precision, with_time_zone)
             else:
-                return SqlTimestampType(int(m.group(1)), False)
+                return SqlTimeType(precision, with_time_zone)
 
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
-- 
2.43.0


From 8ce8c54e1f46869e763c8a6c05472ea9f3daca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 65/98] fix: PostgreSQL: recognise arrays in composite types,
 and length and precision of array items

---
 pysqlsync/dialect/postgresql/discovery.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 1678024..9e1ba56 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -64,6 +64,7 @@ class PostgreSQLMemberMeta:
     type_schema: str
     type_name: str
     type_def: str
+    is_array: bool
     description: str
 
 
@@ -198,9 +199,9 @@ class PostgreSQLExplorer(Explorer):
             "SELECT\n"
             "    att.attname AS member_name,\n"
             "    typ_nsp.nspname AS type_schema,\n"
-            "    typ.typname AS type_name,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
+            "    att.attndims != 0 AS is_array,\n"
             "    dsc.description AS description\n"
             "FROM pg_catalog.pg_attribute AS att\n"
             "    INNER JOIN pg_catalog.pg_type AS typ ON att.atttypid = typ.oid\n"
@@ -218,8 +219,10 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=mem.type_name,
                 type_schema=mem.type_schema,
-                type_def=mem.type_def,
+                type_def=mem.type_def.removesuffix("[]"),
             )
+            if mem.is_array:
+                data_type = SqlArrayType(data_type)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
@@ -274,7 +277,7 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=col.type_name,
                 type_schema=col.type_schema,
-                type_def=col.type_def,
+                type_def=col.type_def.removesuffix("[]"),
             )
             if col.is_array:
                 data_type = SqlArrayType(data_type)
-- 
2.43.0


From b4fb9fe495a20c9a150310af04f5eb05ac769397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 66/98] fix: MySQL: decode the labels of an enumeration as
 reported by the database

---
 pysqlsync/formation/data_types.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index 7400c56..ab8fa35 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -26,6 +26,15 @@ from ..model.data_types import (
 from ..model.id_types import QualifiedId
 
 
+def _unescape_label(value: str) -> str:
+    "Decodes an enumeration label as it appears in the column type reported by MySQL."
+
+    escapes = {"''": "'", "\\0": "\0", "\\n": "\n", "\\r": "\r", "\\\\": "\\"}
+    return re.sub(
+        r"''|\\[0nr\\]", lambda match: escapes[match.group(0)], value
+    )
+
+
 @dataclasses.dataclass
 class SqlDiscoveryOptions:
     substitutions: dict[str, SqlDataType] = dataclasses.field(default_factory=dict)
@@ -132,11 +141,14 @@ class SqlDiscovery:
             return SqlVariableBinaryType(int(m.group(1)))
 
         # MySQL and Oracle
-        m = re.fullmatch(r"^enum[(](.+)[)]$", type_def, re.IGNORECASE)
+        m = re.fullmatch(
+            r"^enum[(](.+)[)]$", type_def, re.IGNORECASE | re.DOTALL
+        )
         if m is not None:
             value_list = m.group(1)
             values = [
-                value for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                _unescape_label(value)
+                for value in re.findall(r"'((?:[^']|'')*)'(?:,|$)", value_list)
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From 30988e4661b021e41606f68c2b32dc0273052a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 67/98] fix: recognise times without a fraction of a second

---
 pysqlsync/dialect/mysql/discovery.py | 3 ++-
 pysqlsync/formation/data_types.py    | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 44dca53..817a2e9 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -97,7 +97,8 @@ class MySQLExplorer(AnsiExplorer):
                         character_maximum_length=col.character_maximum_length,
                         numeric_precision=col.numeric_precision,
                         numeric_scale=col.numeric_scale,
-                        datetime_precision=col.datetime_precision,
+                        # default precision is 0
+                        datetime_precision=col.datetime_precision or None,
                     ),
                     bool(col.nullable),
                     default=col.column_default,
diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index ab8fa35..b4d261c 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -197,10 +197,10 @@ class SqlDiscovery:
             if numeric_precision is not None:
                 sql_type.precision = numeric_precision  # precision in base 2
         elif isinstance(sql_type, SqlTimestampType):
-            if datetime_precision is not None and datetime_precision > 0:
+            if datetime_precision is not None:
                 sql_type.precision = datetime_precision
         elif isinstance(sql_type, SqlTimeType):
-            if datetime_precision is not None and datetime_precision > 0:
+            if datetime_precision is not None:
                 sql_type.precision = datetime_precision
         elif isinstance(sql_type, SqlFixedCharacterType):
             if character_maximum_length is not None:
-- 
2.43.0


From b08e3990820266d65d50b71f71044227961bf0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 68/98] fix: Oracle: recognise decimal types, and precision and
 time zone of timestamps

---
 pysqlsync/dialect/oracle/discovery.py | 34 +++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 3a7b8a4..e019774 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -7,7 +7,12 @@ from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import Column, Constraint, Namespace, Table
-from pysqlsync.model.data_types import escape_like, quote
+from pysqlsync.model.data_types import (
+    SqlDataType,
+    SqlDecimalType,
+    escape_like,
+    quote,
+)
 from pysqlsync.model.id_types import (
     LocalId,
     PrefixedId,
@@ -140,20 +145,29 @@ class OracleExplorer(Explorer):
             else:
                 data_type = col.data_type
 
-            data_type = self.discovery.sql_data_type_from_spec(
-                type_name=data_type,
-                type_schema=col.data_type_owner,
-                type_def=col.data_type,
-                character_maximum_length=char_length,
-                numeric_precision=col.data_precision,
-                numeric_scale=col.data_scale,
-            )
+            sql_type: SqlDataType
+            if data_type == "NUMBER" and col.data_scale is not None:
+                sql_type = SqlDecimalType(col.data_precision, col.data_scale)
+            elif data_type == "TIMESTAMP":
+                sql_type = OracleTimestampType(
+                    col.data_scale if col.data_scale != 6 else None,
+                    col.data_type.endswith("WITH TIME ZONE"),
+                )
+            else:
+                sql_type = self.discovery.sql_data_type_from_spec(
+                    type_name=data_type,
+                    type_schema=col.data_type_owner,
+                    type_def=col.data_type,
+                    character_maximum_length=char_length,
+                    numeric_precision=col.data_precision,
+                    numeric_scale=col.data_scale,
+                )
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
             columns.append(
                 self.factory.column_class(
                     LocalId(col.column_name),
-                    data_type,
+                    sql_type,
                     nullable,
                     identity=identity,
                     default=col.data_default if not identity else None,
-- 
2.43.0


From 601d633299f304550e965e63b56775a579c913c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 69/98] fix: Microsoft SQL Server: do not take a row version
 for a date and time

---
 pysqlsync/dialect/mssql/discovery.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index f52484d..2a196bf 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -4,8 +4,8 @@ from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
 from pysqlsync.formation.object_types import Column, Namespace, Table
-from pysqlsync.model.data_types import quote
-from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
+from pysqlsync.model.data_types import SqlUserDefinedType, quote
+from pysqlsync.model.id_types import GlobalId, LocalId, SupportsQualifiedId
 
 from .data_types import (
     MSSQLBooleanType,
@@ -31,6 +31,8 @@ class MSSQLExplorer(AnsiExplorer):
                         ),
                         "varchar": MSSQLVariableCharacterType(),
                         "text": MSSQLVariableCharacterType(),
+                        # binary row version, unrelated to date and time
+                        "timestamp": SqlUserDefinedType(GlobalId("rowversion")),
                     }
                 )
             ),
-- 
2.43.0


From a463183665745fe359448305ccb2dab057a67bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:46 +0000
Subject: [PATCH 70/98] fix: no column is altered whose data type is the same
 in the database

---
 pysqlsync/dialect/mssql/mutation.py  | 12 +++++++-----
 pysqlsync/dialect/mysql/mutation.py  |  2 +-
 pysqlsync/dialect/oracle/mutation.py |  2 +-
 pysqlsync/formation/mutation.py      |  9 +++++++--
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index cbb090b..e010c37 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -22,7 +22,10 @@ class MSSQLMutator(Mutator):
                 source.name,
             )
 
-        if source.data_type != target.data_type or source.nullable != target.nullable:
+        if (
+            not self.is_same_type(source, target)
+            or source.nullable != target.nullable
+        ):
             nullable = " NOT NULL" if not target.nullable else ""
             return f"ALTER COLUMN {source.name} {target.data_type}{nullable}"
         else:
@@ -39,9 +42,8 @@ class MSSQLMutator(Mutator):
             target_def = target_column.default
 
             # a default constraint prevents the data type of the column from being changed
-            if (
-                source_def == target_def
-                and source_column.data_type == target_column.data_type
+            if source_def == target_def and self.is_same_type(
+                source_column, target_column
             ):
                 continue
 
@@ -58,7 +60,7 @@ class MSSQLMutator(Mutator):
         altered_columns = [
             source_column.name
             for source_column, target_column in common_columns
-            if source_column.data_type != target_column.data_type
+            if not self.is_same_type(source_column, target_column)
         ]
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 5c41ad1..4a25951 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -74,7 +74,7 @@ class MySQLMutator(Mutator):
         target = typing.cast(MySQLColumn, target_column)
 
         if (
-            source.data_type != target.data_type
+            not self.is_same_type(source, target)
             or source.nullable != target.nullable
             or source.default != target.default
             or source.identity != target.identity
diff --git a/pysqlsync/dialect/oracle/mutation.py b/pysqlsync/dialect/oracle/mutation.py
index 31a0dc1..e7a4550 100644
--- a/pysqlsync/dialect/oracle/mutation.py
+++ b/pysqlsync/dialect/oracle/mutation.py
@@ -15,7 +15,7 @@ class OracleMutator(Mutator):
         target = typing.cast(OracleColumn, target_column)
 
         changes: list[str] = []
-        if source.data_type != target.data_type:
+        if not self.is_same_type(source, target):
             changes.append(str(target.data_type))
         if source.default != target.default:
             if target.default is not None:
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index df036fb..4134f9e 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -133,6 +133,11 @@ class Mutator:
                 source.name,
             ) from e
 
+    def is_same_type(self, source: Column, target: Column) -> bool:
+        "True if the database makes no difference between the data types of two columns."
+
+        return str(source.data_type) == str(target.data_type)
+
     def is_column_migrated(self, source: Column, target: Column) -> Optional[bool]:
         """
         True if the column requires data migration, false if no migration is needed.
@@ -143,7 +148,7 @@ class Mutator:
         """
 
         # no migration is needed if column data type is unchanged
-        if source == target or source.data_type == target.data_type:
+        if source == target or self.is_same_type(source, target):
             return False
 
         # check if target data type is a primary key type
@@ -162,7 +167,7 @@ class Mutator:
 
         statements: list[str] = []
 
-        if source.data_type != target.data_type:
+        if not self.is_same_type(source, target):
             statements.append(f"SET DATA TYPE {target.data_type}")
 
         if source.nullable and not target.nullable:
-- 
2.43.0


From 551a985615a75ff85eed6bc8e357c692fa54be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 71/98] fix: no column is altered whose data type the database
 reports by another name

---
 pysqlsync/dialect/mssql/mutation.py  | 6 ++++++
 pysqlsync/dialect/mysql/mutation.py  | 2 ++
 pysqlsync/dialect/oracle/mutation.py | 2 ++
 pysqlsync/formation/mutation.py      | 8 +++++++-
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index e010c37..29cdf25 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -15,6 +15,12 @@ from .object_types import MSSQLColumn
 
 
 class MSSQLMutator(Mutator):
+    type_synonyms = {
+        "decimal": "decimal(18, 0)",
+        "double precision": "float(53)",
+        "time": "time(7)",
+    }
+
     def mutate_column_stmt(self, source: Column, target: Column) -> Optional[str]:
         if source.identity != target.identity:
             raise ColumnFormationError(
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 4a25951..4aa0234 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -16,6 +16,8 @@ from .object_types import MySQLColumn, MySQLTable, sql_quoted_string
 
 
 class MySQLMutator(Mutator):
+    type_synonyms = {"decimal": "decimal(10, 0)", "real": "double precision"}
+
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
diff --git a/pysqlsync/dialect/oracle/mutation.py b/pysqlsync/dialect/oracle/mutation.py
index e7a4550..39393fd 100644
--- a/pysqlsync/dialect/oracle/mutation.py
+++ b/pysqlsync/dialect/oracle/mutation.py
@@ -8,6 +8,8 @@ from .object_types import OracleColumn
 
 
 class OracleMutator(Mutator):
+    type_synonyms = {"double precision": "float(126)", "real": "float(63)"}
+
     def mutate_column_stmt(
         self, source_column: Column, target_column: Column
     ) -> Optional[str]:
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 4134f9e..77a909e 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -57,6 +57,9 @@ class Mutator:
 
     options: MutatorOptions
 
+    type_synonyms: dict[str, str] = {}
+    "Maps a data type to the type that the database reports instead."
+
     def __init__(self, options: Optional[MutatorOptions] = None) -> None:
         self.options = options or MutatorOptions()
 
@@ -136,7 +139,10 @@ class Mutator:
     def is_same_type(self, source: Column, target: Column) -> bool:
         "True if the database makes no difference between the data types of two columns."
 
-        return str(source.data_type) == str(target.data_type)
+        source_type, target_type = str(source.data_type), str(target.data_type)
+        return self.type_synonyms.get(
+            source_type, source_type
+        ) == self.type_synonyms.get(target_type, target_type)
 
     def is_column_migrated(self, source: Column, target: Column) -> Optional[bool]:
         """
-- 
2.43.0


From eb5bb22fed5ec9ba320eacc886327f5ed9a7854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:14 +0000
Subject: [PATCH 72/98] fix: PostgreSQL constants as default values are
 discovered without a type cast

---
 pysqlsync/dialect/postgresql/discovery.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 9e1ba56..d230a1b 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -49,6 +49,16 @@ def to_default_expr(expr: Optional[str]) -> Optional[str]:
             tzinfo=None,
         )
         return quote(timestamp.isoformat(sep=" "))
+
+    # constants are reported along with their type
+    m = re.match(r"^(?P<literal>'(?:[^']|'')*')::(?P<type>.+)$", expr, re.DOTALL)
+    if m:
+        if m.group("type") in ("smallint", "integer", "bigint", "numeric"):
+            return m.group("literal").strip("'")
+        else:
+            return m.group("literal")
+    elif expr in ("true", "false"):
+        return expr.upper()
     else:
         return expr
 
-- 
2.43.0


From b14048103e466364e35fae8c6c16c860123e8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 73/98] fix: Microsoft SQL Server constants as default values
 are discovered without parentheses

---
 pysqlsync/dialect/mssql/discovery.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index 2a196bf..33cf918 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -1,10 +1,11 @@
+import re
 from typing import Optional
 
 from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
 from pysqlsync.formation.object_types import Column, Namespace, Table
-from pysqlsync.model.data_types import SqlUserDefinedType, quote
+from pysqlsync.model.data_types import SqlDataType, SqlUserDefinedType, quote
 from pysqlsync.model.id_types import GlobalId, LocalId, SupportsQualifiedId
 
 from .data_types import (
@@ -16,6 +17,23 @@ from .data_types import (
 from .object_types import MSSQLObjectFactory
 
 
+def to_default_expr(expr: str, data_type: SqlDataType) -> str:
+    "Converts a Microsoft SQL-specific default expression into a standard default expression."
+
+    # constants are reported in parentheses
+    m = re.match(r"^\((?P<literal>'(?:[^']|'')*')\)$", expr, re.DOTALL) or re.match(
+        r"^\(\((?P<literal>[-+.\deE]+)\)\)$", expr
+    )
+    if m is None:
+        return expr
+
+    literal = m.group("literal")
+    if isinstance(data_type, MSSQLBooleanType):
+        return {"1": "TRUE", "0": "FALSE"}.get(literal, literal)
+    else:
+        return literal
+
+
 class MSSQLExplorer(AnsiExplorer):
     def __init__(self, conn: BaseContext) -> None:
         super().__init__(
@@ -63,7 +81,7 @@ class MSSQLExplorer(AnsiExplorer):
             if c.name.id in identity_columns:
                 c.identity = True
             if c.name.id in default_values:
-                c.default = default_values[c.name.id]
+                c.default = to_default_expr(default_values[c.name.id], c.data_type)
 
         return columns
 
-- 
2.43.0


From 8ba4590b96e6b6d17f50c467b3c3e480f352a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 74/98] fix: MySQL default values are discovered as expressions

---
 pysqlsync/dialect/mysql/discovery.py | 62 +++++++++++++++++++++++-----
 pysqlsync/dialect/mysql/mutation.py  | 25 ++++++++++-
 2 files changed, 74 insertions(+), 13 deletions(-)

diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 817a2e9..bb6ee54 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -1,3 +1,4 @@
+import re
 from dataclasses import dataclass
 from typing import Optional
 
@@ -10,7 +11,16 @@ from pysqlsync.formation.discovery import (
     AnsiExplorer,
 )
 from pysqlsync.formation.object_types import Column, ForeignConstraint, Namespace
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import (
+    SqlBooleanType,
+    SqlDataType,
+    SqlDecimalType,
+    SqlDoubleType,
+    SqlFloatType,
+    SqlIntegerType,
+    SqlRealType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId, PrefixedId, SupportsQualifiedId
 from pysqlsync.util.typing import override
 
@@ -22,6 +32,35 @@ from .data_types import (
 from .object_types import MySQLObjectFactory
 
 
+def to_default_expr(
+    value: Optional[str], data_type: SqlDataType, extra: str
+) -> Optional[str]:
+    "Converts a MySQL-specific default value into a standard default expression."
+
+    if value is None:
+        return None
+
+    if "DEFAULT_GENERATED" in extra:
+        # expression with special characters escaped, in which string literals have special characters escaped
+        m = re.match(r"^_\w+'(?P<literal>.*)'$", unescape(value), re.DOTALL)
+        return quote(unescape(m.group("literal"))) if m else value
+
+    if isinstance(
+        data_type,
+        (SqlIntegerType, SqlBooleanType, SqlDecimalType)
+        + (SqlFloatType, SqlRealType, SqlDoubleType),
+    ):
+        return value
+    else:
+        return quote(value)
+
+
+def unescape(text: str) -> str:
+    "Eliminates backslash escapes."
+
+    return re.sub(r"\\(.)", r"\1", text, flags=re.DOTALL)
+
+
 @dataclass
 class MySQLColumnMeta(AnsiColumnMeta):
     column_type: str
@@ -88,20 +127,21 @@ class MySQLExplorer(AnsiExplorer):
 
         columns: list[Column] = []
         for col in column_meta:
+            data_type = self.discovery.sql_data_type_from_spec(
+                type_name=col.data_type,
+                type_def=col.column_type,
+                character_maximum_length=col.character_maximum_length,
+                numeric_precision=col.numeric_precision,
+                numeric_scale=col.numeric_scale,
+                # default precision is 0
+                datetime_precision=col.datetime_precision or None,
+            )
             columns.append(
                 self.factory.column_class(
                     LocalId(col.column_name),
-                    self.discovery.sql_data_type_from_spec(
-                        type_name=col.data_type,
-                        type_def=col.column_type,
-                        character_maximum_length=col.character_maximum_length,
-                        numeric_precision=col.numeric_precision,
-                        numeric_scale=col.numeric_scale,
-                        # default precision is 0
-                        datetime_precision=col.datetime_precision or None,
-                    ),
+                    data_type,
                     bool(col.nullable),
-                    default=col.column_default,
+                    default=to_default_expr(col.column_default, data_type, col.extra),
                     identity="auto_increment" in col.extra,
                     description=col.column_comment or None,
                 )
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 4aa0234..a52c956 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -1,3 +1,4 @@
+import re
 import typing
 from typing import Optional
 
@@ -9,12 +10,32 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType
+from pysqlsync.model.data_types import (
+    SqlEnumType,
+    SqlFixedCharacterType,
+    SqlVariableCharacterType,
+)
 from pysqlsync.model.id_types import LocalId
 
 from .object_types import MySQLColumn, MySQLTable, sql_quoted_string
 
 
+def normal_default(column: Column) -> Optional[str]:
+    "The default expression of a column, written the same way irrespective of the precision of the column."
+
+    expr = column.default
+    if expr is None or isinstance(
+        column.data_type,
+        (SqlFixedCharacterType, SqlVariableCharacterType, SqlEnumType),
+    ):
+        return expr
+
+    # the fractional part of numbers and timestamps extends to the full precision of the column
+    expr = re.sub(r"^('?[-+:. \d]*\d\.\d*?)0+('?)$", r"\1\2", expr)
+    expr = re.sub(r"\.('?)$", r"\1", expr)
+    return {"TRUE": "1", "FALSE": "0"}.get(expr, expr)
+
+
 class MySQLMutator(Mutator):
     type_synonyms = {"decimal": "decimal(10, 0)", "real": "double precision"}
 
@@ -78,7 +99,7 @@ class MySQLMutator(Mutator):
         if (
             not self.is_same_type(source, target)
             or source.nullable != target.nullable
-            or source.default != target.default
+            or normal_default(source) != normal_default(target)
             or source.identity != target.identity
             or source.comment != target.comment
         ):
-- 
2.43.0


From 6ed10a453f771d47a6928603917e1db83d2051c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:17 +0000
Subject: [PATCH 75/98] fix: Oracle default values are discovered without the
 text around them

---
 pysqlsync/dialect/oracle/discovery.py    |  6 +++++-
 pysqlsync/dialect/oracle/mutation.py     |  2 +-
 pysqlsync/dialect/oracle/object_types.py | 10 +++++++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index e019774..de8ccc5 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -162,6 +162,10 @@ class OracleExplorer(Explorer):
                     numeric_precision=col.data_precision,
                     numeric_scale=col.data_scale,
                 )
+            # text of the expression as entered; a default value is removed by setting it to NULL
+            default = col.data_default.strip() if col.data_default else None
+            if default == "NULL":
+                default = None
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
             columns.append(
@@ -170,7 +174,7 @@ class OracleExplorer(Explorer):
                     sql_type,
                     nullable,
                     identity=identity,
-                    default=col.data_default if not identity else None,
+                    default=default if not identity else None,
                     description=col.comments,
                 )
             )
diff --git a/pysqlsync/dialect/oracle/mutation.py b/pysqlsync/dialect/oracle/mutation.py
index 39393fd..e5688a9 100644
--- a/pysqlsync/dialect/oracle/mutation.py
+++ b/pysqlsync/dialect/oracle/mutation.py
@@ -19,7 +19,7 @@ class OracleMutator(Mutator):
         changes: list[str] = []
         if not self.is_same_type(source, target):
             changes.append(str(target.data_type))
-        if source.default != target.default:
+        if source.default_or_null_expr != target.default_or_null_expr:
             if target.default is not None:
                 changes.append(f"DEFAULT {target.default_expr}")
             else:
diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index a6ead80..1622bca 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,4 +1,5 @@
 import re
+from typing import Optional
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
 from pysqlsync.model.data_types import SqlDateType, SqlTimestampType, SqlTimeType
@@ -7,8 +8,15 @@ from pysqlsync.model.data_types import SqlDateType, SqlTimestampType, SqlTimeTyp
 class OracleColumn(Column):
     @property
     def default_expr(self) -> str:
-        if self.default is None:
+        expr = self.default_or_null_expr
+        if expr is None:
             raise ValueError("default value is NULL")
+        return expr
+
+    @property
+    def default_or_null_expr(self) -> Optional[str]:
+        if self.default is None:
+            return None
 
         if isinstance(self.data_type, SqlTimestampType):
             m = re.match(
-- 
2.43.0


From fc9b860ad34b15014f4edf285c67c660190aad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:30 +0000
Subject: [PATCH 76/98] fix: resolve unqualified names in the current schema
 when exploring PostgreSQL

---
 pysqlsync/dialect/postgresql/discovery.py | 32 +++++++++++++----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index d230a1b..769af88 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -138,24 +138,30 @@ class PostgreSQLExplorer(Explorer):
         )
         return [QualifiedId(row[0], row[1]) for row in rows]  # type: ignore
 
-    @classmethod
-    def _where_relation(cls, relation_id: SupportsQualifiedId, kinds: list[str]) -> str:
+    def _where_namespace(self, object_id: SupportsQualifiedId) -> str:
+        # an unqualified name identifies an object in the current schema
+        if object_id.scope_id is not None:
+            schema = quote(object_id.scope_id)
+        else:
+            schema = self.conn.connection.generator.get_current_schema_stmt()
+        return f"nsp.nspname = {schema}"
+
+    def _where_relation(
+        self, relation_id: SupportsQualifiedId, kinds: list[str]
+    ) -> str:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(relation_id.local_id)}")
-        if relation_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(relation_id.scope_id)}")
+        conditions.append(self._where_namespace(relation_id))
         conditions.append(
             " OR ".join(f"(cls.relkind = {quote(kind)})" for kind in kinds)
         )
         return " AND ".join(f"({c})" for c in conditions)
 
-    @classmethod
-    def _where_struct(cls, struct_id: SupportsQualifiedId) -> str:
-        return cls._where_relation(struct_id, ["c"])
+    def _where_struct(self, struct_id: SupportsQualifiedId) -> str:
+        return self._where_relation(struct_id, ["c"])
 
-    @classmethod
-    def _where_table(cls, table_id: SupportsQualifiedId) -> str:
-        return cls._where_relation(table_id, ["r", "v"])
+    def _where_table(self, table_id: SupportsQualifiedId) -> str:
+        return self._where_relation(table_id, ["r", "v"])
 
     async def has_table(self, table_id: SupportsQualifiedId) -> bool:
         rows = await self.conn.query_all(
@@ -171,8 +177,7 @@ class PostgreSQLExplorer(Explorer):
     ) -> bool:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(table_id.local_id)}")
-        if table_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(table_id.scope_id)}")
+        conditions.append(self._where_namespace(table_id))
         conditions.append("cls.relkind = 'r' OR cls.relkind = 'v'")
         conditions.append(f"att.attname = {quote(column_id.local_id)}")
         condition = " AND ".join(f"({c})" for c in conditions)
@@ -190,8 +195,7 @@ class PostgreSQLExplorer(Explorer):
     async def get_struct(self, struct_id: SupportsQualifiedId) -> StructType:
         conditions: list[str] = []
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
-        if struct_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(struct_id.scope_id)}")
+        conditions.append(self._where_namespace(struct_id))
         condition = " AND ".join(f"({c})" for c in conditions)
 
         struct_record = await self.conn.query_one(
-- 
2.43.0


From 8d17f59a9da21e6251610b9a029ee61071599683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:55 +0000
Subject: [PATCH 77/98] fix: report a table or struct that does not exist when
 exploring PostgreSQL or Oracle

---
 pysqlsync/dialect/oracle/discovery.py     |  5 ++++-
 pysqlsync/dialect/postgresql/discovery.py | 14 +++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index de8ccc5..f694c5e 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -3,7 +3,7 @@ import re
 from dataclasses import dataclass
 from typing import Optional
 
-from pysqlsync.base import BaseContext, Explorer
+from pysqlsync.base import BaseContext, DiscoveryError, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import Column, Constraint, Namespace, Table
@@ -132,6 +132,9 @@ class OracleExplorer(Explorer):
             "ORDER BY column_id",
         )
 
+        if not column_records:
+            raise DiscoveryError(f"table not found: {table_id}")
+
         columns: list[Column] = []
         for col in column_records:
             char_length: Optional[int]
diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 769af88..4885326 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -4,7 +4,7 @@ from dataclasses import dataclass
 from itertools import groupby
 from typing import Optional
 
-from pysqlsync.base import BaseContext, Explorer
+from pysqlsync.base import BaseContext, DiscoveryError, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import (
@@ -198,7 +198,7 @@ class PostgreSQLExplorer(Explorer):
         conditions.append(self._where_namespace(struct_id))
         condition = " AND ".join(f"({c})" for c in conditions)
 
-        struct_record = await self.conn.query_one(
+        struct_records = await self.conn.query_all(
             PostgreSQLStructMeta,
             "SELECT\n"
             "    dsc.description AS description\n"
@@ -207,6 +207,8 @@ class PostgreSQLExplorer(Explorer):
             "    LEFT JOIN pg_catalog.pg_description AS dsc ON dsc.objoid = typ.oid AND dsc.objsubid = 0\n"
             f"WHERE {condition}",
         )
+        if not struct_records:
+            raise DiscoveryError(f"struct not found: {struct_id}")
 
         member_records = await self.conn.query_all(
             PostgreSQLMemberMeta,
@@ -248,11 +250,11 @@ class PostgreSQLExplorer(Explorer):
         return self.factory.struct_class(
             name=struct_id,
             members=members,
-            description=struct_record.description,
+            description=struct_records[0].description,
         )
 
     async def get_table(self, table_id: SupportsQualifiedId) -> Table:
-        table_record = await self.conn.query_one(
+        table_records = await self.conn.query_all(
             PostgreSQLTableMeta,
             "SELECT\n"
             "    dsc.description AS description\n"
@@ -261,6 +263,8 @@ class PostgreSQLExplorer(Explorer):
             "    LEFT JOIN pg_catalog.pg_description AS dsc ON dsc.objoid = cls.oid AND dsc.objsubid = 0\n"
             f"WHERE {self._where_table(table_id)}",
         )
+        if not table_records:
+            raise DiscoveryError(f"table not found: {table_id}")
 
         column_records = await self.conn.query_all(
             PostgreSQLColumnMeta,
@@ -360,7 +364,7 @@ class PostgreSQLExplorer(Explorer):
             columns=columns,
             primary_key=tuple(primary),
             constraints=constraints or None,
-            description=table_record.description,
+            description=table_records[0].description,
         )
 
     async def get_namespace_current(self) -> Namespace:
-- 
2.43.0


From ce99a2b40973dc1b9609208883f7af7e44939ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 78/98] fix: leave tables of other users out of account in
 Oracle

---
 pysqlsync/dialect/oracle/connection.py | 5 ++---
 pysqlsync/dialect/oracle/discovery.py  | 9 +++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index 20f7887..844703b 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -161,9 +161,8 @@ class OracleContext(BaseContext):
     @override
     async def drop_schema(self, namespace: LocalId) -> None:
         LOGGER.debug("drop schema: %s", namespace)
-        condition = (
-            f"table_name LIKE '{escape_like(namespace.id, '~')}~_~_%' ESCAPE '~'"
-        )
+        schema_expr = self.connection.generator.get_current_schema_stmt()
+        condition = f"owner = {schema_expr} AND table_name LIKE '{escape_like(namespace.id, '~')}~_~_%' ESCAPE '~'"
         tables = await self.query_all(
             str,
             f"SELECT table_name FROM dba_tables WHERE {condition}",
diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index f694c5e..27cda1a 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -102,7 +102,11 @@ class OracleExplorer(Explorer):
         raise NotImplementedError()
 
     async def get_table(self, table_id: SupportsQualifiedId) -> Table:
-        condition = f"t.table_name = {quote(table_id.local_id)}"
+        # other users may have a table of the same name
+        schema_expr = self.conn.connection.generator.get_current_schema_stmt()
+        condition = (
+            f"t.owner = {schema_expr} AND t.table_name = {quote(table_id.local_id)}"
+        )
 
         table_comments = await self.conn.query_all(
             str,
@@ -233,6 +237,7 @@ class OracleExplorer(Explorer):
         return await self._get_namespace(namespace_id)
 
     async def _get_namespace(self, namespace_id: Optional[LocalId] = None) -> Namespace:
+        schema_expr = self.conn.connection.generator.get_current_schema_stmt()
         if namespace_id is not None:
             condition = (
                 f"table_name LIKE '{escape_like(namespace_id.id, '~')}~_~_%' ESCAPE '~'"
@@ -243,7 +248,7 @@ class OracleExplorer(Explorer):
         table_names = await self.conn.query_all(
             str,
             "SELECT table_name FROM dba_tables\n"
-            f"WHERE owner != 'SYS' AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
+            f"WHERE owner = {schema_expr} AND owner != 'SYS' AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
             "    AND status = 'VALID' AND temporary = 'N' AND secondary = 'N' AND dropped = 'NO' AND read_only = 'NO'",
         )
 
-- 
2.43.0


From 32cd819212250305a5761dc43dcc32c3832150ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:12 +0000
Subject: [PATCH 79/98] fix: quote the statement that drops an Oracle table if
 it exists

---
 pysqlsync/dialect/oracle/object_types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 1622bca..300bf9a 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -2,7 +2,12 @@ import re
 from typing import Optional
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlDateType, SqlTimestampType, SqlTimeType
+from pysqlsync.model.data_types import (
+    SqlDateType,
+    SqlTimestampType,
+    SqlTimeType,
+    quote,
+)
 
 
 class OracleColumn(Column):
@@ -50,9 +55,10 @@ class OracleTable(Table):
         )
 
     def drop_if_exists_stmt(self) -> str:
+        stmt = quote(f"DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE")
         return (
             "BEGIN\n"
-            f"    EXECUTE IMMEDIATE 'DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE';\n"
+            f"    EXECUTE IMMEDIATE {stmt};\n"
             "EXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF;\n"
             "END;"
         )
-- 
2.43.0


From 1aaf74f3751c02062ad4c992d571d67c7dc0caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:42 +0000
Subject: [PATCH 80/98] fix: escape backslash characters in names when
 exploring MySQL

---
 pysqlsync/dialect/mysql/connection.py |  5 ++++-
 pysqlsync/dialect/mysql/discovery.py  |  8 ++++++--
 pysqlsync/formation/discovery.py      | 13 +++++++++----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/dialect/mysql/connection.py b/pysqlsync/dialect/mysql/connection.py
index 06b59d4..a23bcb0 100644
--- a/pysqlsync/dialect/mysql/connection.py
+++ b/pysqlsync/dialect/mysql/connection.py
@@ -14,6 +14,8 @@ from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.typing import override
 
+from .object_types import escape_backslash
+
 D = TypeVar("D", bound=DataclassInstance)
 T = TypeVar("T")
 
@@ -119,11 +121,12 @@ class MySQLContext(BaseContext):
     async def drop_schema(self, namespace: LocalId) -> None:
         LOGGER.debug("drop schema: %s", namespace)
 
+        pattern = escape_backslash(f"'{escape_like(namespace.id, '~')}~_~_%'")
         tables = await self.query_all(
             str,
             "SELECT table_name\n"
             "FROM information_schema.tables\n"
-            f"WHERE table_schema = DATABASE() AND table_name LIKE '{escape_like(namespace.id, '~')}~_~_%' ESCAPE '~';",
+            f"WHERE table_schema = DATABASE() AND table_name LIKE {pattern} ESCAPE '~';",
         )
         if tables:
             table_list = ", ".join(quoted_id(table) for table in tables)
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index bb6ee54..75fcf13 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -29,7 +29,7 @@ from .data_types import (
     MySQLVariableBinaryType,
     MySQLVariableCharacterType,
 )
-from .object_types import MySQLObjectFactory
+from .object_types import MySQLObjectFactory, escape_backslash
 
 
 def to_default_expr(
@@ -98,6 +98,10 @@ class MySQLExplorer(AnsiExplorer):
     ) -> SupportsQualifiedId:
         return PrefixedId(namespace, id)
 
+    @override
+    def _literal(self, expr: str) -> str:
+        return escape_backslash(expr)
+
     def split_composite_id(self, name: str) -> SupportsQualifiedId:
         if "__" in name:
             parts = name.split("__", 1)
@@ -169,7 +173,7 @@ class MySQLExplorer(AnsiExplorer):
             "        ON kcu.constraint_catalog = ref.constraint_catalog\n"
             "            AND kcu.constraint_schema = ref.constraint_schema\n"
             "            AND kcu.constraint_name = ref.constraint_name\n"
-            f"WHERE ref.table_name = {quote(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n",
+            f"WHERE ref.table_name = {self._literal(quote(table_id.local_id))} AND {self._where_table(table_id, 'kcu')}\n",
         )
 
         constraints = ForeignFactory()
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index a4b1024..b2a4ecd 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -128,13 +128,18 @@ class AnsiExplorer(Explorer):
         )
         return [QualifiedId(record[0], record[1]) for record in records]  # type: ignore[arg-type]
 
+    def _literal(self, expr: str) -> str:
+        "Allows dialects to escape characters (other than the delimiter) that are special in a string literal."
+
+        return expr
+
     def _where_table(self, table_id: SupportsQualifiedId, alias: str) -> str:
         table_schema = (
-            quote(table_id.scope_id)
+            self._literal(quote(table_id.scope_id))
             if table_id.scope_id is not None
             else self.conn.connection.generator.get_current_schema_stmt()
         )
-        table_name = quote(table_id.local_id)
+        table_name = self._literal(quote(table_id.local_id))
         conditions = [
             f"{alias}.table_schema = {table_schema}",
             f"{alias}.table_name = {table_name}",
@@ -159,7 +164,7 @@ class AnsiExplorer(Explorer):
             int,
             "SELECT COUNT(*)\n"
             "FROM information_schema.columns AS col\n"
-            f"WHERE {self._where_table(table_id, 'col')} AND col.column_name = {quote(column_id.local_id)}",
+            f"WHERE {self._where_table(table_id, 'col')} AND col.column_name = {self._literal(quote(column_id.local_id))}",
         )
         return count > 0
 
@@ -394,7 +399,7 @@ class AnsiExplorer(Explorer):
 
         # create namespace using flat IDs
         if namespace_id is not None:
-            schema_expr = f"'{escape_like(namespace_id.id, '~')}~_~_%'"
+            schema_expr = self._literal(f"'{escape_like(namespace_id.id, '~')}~_~_%'")
             condition = f"table_name LIKE {schema_expr} ESCAPE '~'"
         else:
             condition = "table_name NOT LIKE '%~_~_%' ESCAPE '~'"
-- 
2.43.0


From 938f0aae35384cde2cf2257ac017e2987b642c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:37 +0000
Subject: [PATCH 81/98] fix: leave system columns out of account when checking
 for a column in PostgreSQL

---
 pysqlsync/dialect/postgresql/discovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 4885326..a1573c4 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -180,6 +180,8 @@ class PostgreSQLExplorer(Explorer):
         conditions.append(self._where_namespace(table_id))
         conditions.append("cls.relkind = 'r' OR cls.relkind = 'v'")
         conditions.append(f"att.attname = {quote(column_id.local_id)}")
+        # system columns have a negative number
+        conditions.append("att.attnum > 0")
         condition = " AND ".join(f"({c})" for c in conditions)
 
         rows = await self.conn.query_all(
-- 
2.43.0


From d935a40b79d442f4c6fe17f17f2dfad40e886642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:25 +0000
Subject: [PATCH 82/98] fix: identify identity and default columns in the
 current schema of Microsoft SQL Server

---
 pysqlsync/dialect/mssql/discovery.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index 33cf918..32c967e 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -59,13 +59,17 @@ class MSSQLExplorer(AnsiExplorer):
 
     async def get_columns(self, table_id: SupportsQualifiedId) -> list[Column]:
         columns = await super().get_columns(table_id)
+        if table_id.scope_id is not None:
+            schema_expr = quote(table_id.scope_id)
+        else:
+            schema_expr = self.conn.connection.generator.get_current_schema_stmt()
         identity_columns = await self.conn.query_all(
             str,
             "SELECT c.name\n"
             "FROM sys.schemas AS s\n"
             "    INNER JOIN sys.tables AS t ON t.schema_id = s.schema_id\n"
             "    INNER JOIN sys.columns AS c ON c.object_id = t.object_id\n"
-            f"WHERE s.name = {quote(table_id.scope_id or 'dbo')} AND t.name = {quote(table_id.local_id)} AND c.is_identity = 1;",
+            f"WHERE s.name = {schema_expr} AND t.name = {quote(table_id.local_id)} AND c.is_identity = 1;",
         )
         default_columns = await self.conn.query_all(
             tuple[str, str],
@@ -74,7 +78,7 @@ class MSSQLExplorer(AnsiExplorer):
             "    INNER JOIN sys.tables AS t ON t.schema_id = s.schema_id\n"
             "    INNER JOIN sys.columns AS c ON c.object_id = t.object_id\n"
             "    INNER JOIN sys.default_constraints AS d ON d.object_id = c.default_object_id\n"
-            f"WHERE s.name = {quote(table_id.scope_id or 'dbo')} AND t.name = {quote(table_id.local_id)} AND c.default_object_id != 0;",
+            f"WHERE s.name = {schema_expr} AND t.name = {quote(table_id.local_id)} AND c.default_object_id != 0;",
         )
         default_values = dict(default_columns)
         for c in columns:
-- 
2.43.0


From 45a93ea4c6d46427256deffed4f43fbd5d4cd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:05 +0000
Subject: [PATCH 83/98] fix: drop constraints in the form that the dialect has

---
 pysqlsync/formation/object_types.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index ffcefee..e47e873 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -588,12 +588,8 @@ class Table(DatabaseObject, QualifiedObject):
 
     def drop_constraints_stmt(self) -> Optional[str]:
         if self.table_constraints:
-            return (
-                f"ALTER TABLE {self.name}\n"
-                + ",\n".join(
-                    f"DROP CONSTRAINT {c.name}" for c in self.table_constraints
-                )
-                + "\n;"
+            return self.alter_table_stmt(
+                [f"DROP CONSTRAINT {c.name}" for c in self.table_constraints]
             )
         else:
             return None
-- 
2.43.0


From 6155998ae5e1adbb6e1442370f25b254a70ac78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:10 +0000
Subject: [PATCH 84/98] fix: drop composite types after all types that refer to
 them in any namespace

---
 pysqlsync/formation/object_types.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index e47e873..00a2efe 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -738,7 +738,7 @@ class Namespace(DatabaseObject):
     def drop_objects_stmt(self) -> Optional[str]:
         items: list[str] = []
         items.extend(t.drop_stmt() for t in reversed(list(self.tables.values())))
-        items.extend(s.drop_stmt() for s in reversed(list(self.structs.values())))
+        items.extend(s.drop_stmt() for s in reversed(sort_structs(self.structs.values())))
         items.extend(e.drop_stmt() for e in reversed(list(self.enums.values())))
         return join_or_none(items)
 
@@ -860,12 +860,19 @@ class Catalog(DatabaseObject):
     def drop_stmt(self) -> str:
         self.sort()
         items: list[Optional[str]] = []
+        # namespaces may refer to each other
+        namespaces = list(reversed(list(self.namespaces.values())))
+        for ns in namespaces:
+            items.extend(t.drop_stmt() for t in reversed(list(ns.tables.values())))
         items.extend(
-            n.drop_objects_stmt() for n in reversed(list(self.namespaces.values()))
-        )
-        items.extend(
-            n.drop_schema_stmt() for n in reversed(list(self.namespaces.values()))
+            s.drop_stmt()
+            for s in reversed(
+                sort_structs(s for ns in namespaces for s in ns.structs.values())
+            )
         )
+        for ns in namespaces:
+            items.extend(e.drop_stmt() for e in reversed(list(ns.enums.values())))
+        items.extend(ns.drop_schema_stmt() for ns in namespaces)
         return join(items)
 
     def sort(self) -> None:
-- 
2.43.0


From 55eaeaf7459cf26d8d3ad46a7151275a61e851a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:31 +0000
Subject: [PATCH 85/98] fix: COPY data to Redshift in a form that preserves
 nulls, delimiters and binary data

---
 pysqlsync/dialect/redshift/connection.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index c9a3945..7322f4b 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -1,7 +1,8 @@
 import logging
+import re
 import typing
 from io import BytesIO
-from typing import Iterable, Optional, Sized, TypeVar
+from typing import Any, Iterable, Optional, Sized, TypeVar
 
 import redshift_connector
 from strong_typing.inspection import (
@@ -32,6 +33,18 @@ LOGGER = logging.getLogger("pysqlsync.redshift")
 redshift_connector.paramstyle = "numeric"
 
 
+def _copy_field(value: Any) -> bytes:
+    "Writes a value as a field of delimited text that COPY with option ESCAPE reads."
+
+    if value is None:
+        return b"\\N"
+    elif isinstance(value, bytes):
+        return value.hex().encode("ascii")
+
+    text = re.sub(r"[\\|\r\n]", r"\\\g<0>", str(value))
+    return text.encode("utf-8")
+
+
 class RedshiftConnection(BaseConnection):
     native: redshift_connector.Connection
 
@@ -153,11 +166,11 @@ class RedshiftContext(BaseContext):
         records: Iterable[RecordType],
     ) -> None:
         column_list = ", ".join(str(column) for column in columns)
-        copy_query = f"COPY {table_name} ({column_list}) FROM STDIN"
+        copy_query = f"COPY {table_name} ({column_list}) FROM STDIN ESCAPE"
 
         with BytesIO() as f:
             for record in records:
-                f.write(b"|".join(str(value).encode("utf-8") for value in record))
+                f.write(b"|".join(_copy_field(value) for value in record))
                 f.write(b"\n")
             stream_data = f.getvalue()
 
-- 
2.43.0


From c77195b72919b520ade83a4813f90cdbcdfe7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:34 +0000
Subject: [PATCH 86/98] fix: deliver data-class objects for queries in Redshift

---
 pysqlsync/dialect/redshift/connection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 7322f4b..bdfdcea 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -20,7 +20,7 @@ from pysqlsync.base import (
 )
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
-from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
@@ -110,7 +110,12 @@ class RedshiftContext(BaseContext):
             records = cursor.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
-                return resultset_unwrap_object(signature, records)  # type: ignore
+                # rows are lists without column names
+                names = [column[0] for column in cursor.description]
+                return resultset_unwrap_dict(
+                    signature,  # type: ignore
+                    (dict(zip(names, record)) for record in records),
+                )
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From 26ee15f59ddf444ccaef37619c3aae577da31a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:42 +0000
Subject: [PATCH 87/98] fix: sort a namespace after the unnamed namespace that
 it refers to

---
 pysqlsync/formation/object_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 00a2efe..2ca6645 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -708,7 +708,8 @@ class Namespace(DatabaseObject):
         for t in self.tables.values():
             items.update(t.get_referenced_types())
             items.update(t.get_referenced_tables())
-        return set(LocalId(i.scope_id) for i in items if i.scope_id is not None)
+        # objects with no scope are in the unnamed namespace
+        return set(LocalId(i.scope_id or "") for i in items)
 
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
-- 
2.43.0


From a77890b53e0446f62873911214ed0049bceddfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:01 +0000
Subject: [PATCH 88/98] fix: let the explorer of Trino be created, and read
 types with parameters

---
 pysqlsync/dialect/trino/discovery.py | 12 +++++++++++-
 pysqlsync/dialect/trino/generator.py |  4 ++++
 pysqlsync/formation/discovery.py     |  4 +++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/trino/discovery.py b/pysqlsync/dialect/trino/discovery.py
index f754e7e..5f64cd4 100644
--- a/pysqlsync/dialect/trino/discovery.py
+++ b/pysqlsync/dialect/trino/discovery.py
@@ -1,7 +1,9 @@
 from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
-from pysqlsync.formation.object_types import ObjectFactory
+from pysqlsync.formation.object_types import Namespace, ObjectFactory
+from pysqlsync.model.id_types import LocalId
+from pysqlsync.util.typing import override
 
 
 class TrinoExplorer(AnsiExplorer):
@@ -19,3 +21,11 @@ class TrinoExplorer(AnsiExplorer):
             SqlDiscovery(SqlDiscoveryOptions(substitutions={})),
             ObjectFactory(),
         )
+
+    @override
+    async def get_namespace(self, namespace_id: LocalId) -> Namespace:
+        return await self.get_namespace_qualified(namespace_id)
+
+    @override
+    async def get_namespace_current(self) -> Namespace:
+        return await self.get_namespace_qualified()
diff --git a/pysqlsync/dialect/trino/generator.py b/pysqlsync/dialect/trino/generator.py
index d6c6a19..03aca3d 100644
--- a/pysqlsync/dialect/trino/generator.py
+++ b/pysqlsync/dialect/trino/generator.py
@@ -29,3 +29,7 @@ class TrinoGenerator(BaseGenerator):
     @override
     def placeholder(self, index: int) -> str:
         raise NotImplementedError("operation not supported for Trino")
+
+    @override
+    def get_current_schema_stmt(self) -> str:
+        return "CURRENT_SCHEMA"
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index b2a4ecd..40a3f5d 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -189,7 +189,9 @@ class AnsiExplorer(Explorer):
             columns.append(
                 self.factory.column_class(
                     LocalId(column_name),
-                    self.discovery.sql_data_type_from_spec(type_name=data_type),
+                    self.discovery.sql_data_type_from_spec(
+                        type_name=data_type, type_def=data_type
+                    ),
                     bool(nullable),
                 )
             )
-- 
2.43.0


From 371be89ad875b0f27c03d3144be310eec0d62eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 89/98] fix: refuse to make a column an identity column in
 Oracle

---
 pysqlsync/dialect/oracle/mutation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/mutation.py b/pysqlsync/dialect/oracle/mutation.py
index e5688a9..ca17a17 100644
--- a/pysqlsync/dialect/oracle/mutation.py
+++ b/pysqlsync/dialect/oracle/mutation.py
@@ -2,7 +2,7 @@ import typing
 from typing import Optional
 
 from pysqlsync.formation.mutation import Mutator
-from pysqlsync.formation.object_types import Column
+from pysqlsync.formation.object_types import Column, ColumnFormationError
 
 from .object_types import OracleColumn
 
@@ -31,7 +31,11 @@ class OracleMutator(Mutator):
                 changes.append("NULL")
         if source.identity != target.identity:
             if target.identity:
-                changes.append("GENERATED BY DEFAULT AS IDENTITY")
+                # ORA-30673: column to be modified is not an identity column
+                raise ColumnFormationError(
+                    "operation not permitted; cannot add identity property",
+                    source.name,
+                )
             else:
                 changes.append("DROP IDENTITY")
 
-- 
2.43.0


From 0af8730ae68f4c626dbceb808c02db5aa67b7ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 90/98] fix: pair the columns of a composite foreign key in
 Oracle by their position

---
 pysqlsync/dialect/oracle/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 27cda1a..fb3ba96 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -197,7 +197,7 @@ class OracleExplorer(Explorer):
             "FROM dba_constraints t\n"
             "    JOIN dba_cons_columns tc ON t.owner = tc.owner AND t.constraint_name = tc.constraint_name\n"
             "    LEFT JOIN dba_constraints r ON t.r_owner = r.owner AND t.r_constraint_name = r.constraint_name\n"
-            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name\n"
+            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name AND tc.position = rc.position\n"
             f"WHERE {condition}\n"
             "ORDER BY tc.position",
         )
-- 
2.43.0


From d5061f10cd4138e93fece795e0e0dbfdbb6c1cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 91/98] fix: read columns of a foreign key in MySQL in their
 order

---
 pysqlsync/dialect/mysql/discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 75fcf13..51f69b1 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -173,7 +173,8 @@ class MySQLExplorer(AnsiExplorer):
             "        ON kcu.constraint_catalog = ref.constraint_catalog\n"
             "            AND kcu.constraint_schema = ref.constraint_schema\n"
             "            AND kcu.constraint_name = ref.constraint_name\n"
-            f"WHERE ref.table_name = {self._literal(quote(table_id.local_id))} AND {self._where_table(table_id, 'kcu')}\n",
+            f"WHERE ref.table_name = {self._literal(quote(table_id.local_id))} AND {self._where_table(table_id, 'kcu')}\n"
+            "ORDER BY kcu.ordinal_position",
         )
 
         constraints = ForeignFactory()
-- 
2.43.0


From 598afa5a2af0494461e10d865c9a7481faf9c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:37 +0000
Subject: [PATCH 92/98] fix: read columns of keys and constraints in PostgreSQL
 in their order

---
 pysqlsync/dialect/postgresql/discovery.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index a1573c4..58ca07c 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -328,9 +328,10 @@ class PostgreSQLExplorer(Explorer):
             "    con.conrelid AS pkeyrel,\n"
             "    tgt.pkeycol,\n"
             "    con.confrelid AS fkeyrel,\n"
-            "    tgt.fkeycol\n"
+            "    tgt.fkeycol,\n"
+            "    tgt.position\n"
             "FROM pg_catalog.pg_constraint AS con\n"
-            "    CROSS JOIN UNNEST(con.conkey, con.confkey) AS tgt(pkeycol, fkeycol)\n"
+            "    CROSS JOIN UNNEST(con.conkey, con.confkey) WITH ORDINALITY AS tgt(pkeycol, fkeycol, position)\n"
             "    INNER JOIN pg_catalog.pg_class AS cls ON con.conrelid = cls.oid\n"
             "    INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
             f"WHERE {self._where_table(table_id)} AND con.contype IN ('p', 'u', 'f')\n"
@@ -338,7 +339,8 @@ class PostgreSQLExplorer(Explorer):
             "    INNER JOIN pg_catalog.pg_attribute AS att_s ON cons.pkeyrel = att_s.attrelid AND cons.pkeycol = att_s.attnum\n"
             "    LEFT JOIN pg_catalog.pg_class AS cls_t ON cons.fkeyrel = cls_t.oid\n"
             "    LEFT JOIN pg_catalog.pg_namespace AS nsp_t ON cls_t.relnamespace = nsp_t.oid\n"
-            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum",
+            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum\n"
+            "ORDER BY cons.conname, cons.position",
         )
 
         primary: list[LocalId] = []
-- 
2.43.0


From 15f7d3f17b85522e1d75fa8cda17e3a6ed7b94b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:33 +0000
Subject: [PATCH 93/98] fix: do not take columns of a composite foreign key for
 references of their own

---
 pysqlsync/formation/sql_to_py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index e841d81..17611b3 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -272,6 +272,8 @@ class SqlConverter:
             if not isinstance(c, ReferenceConstraint):
                 continue
 
+            if len(c.foreign_columns) > 1:
+                continue
             if column.name not in c.foreign_columns:
                 continue
 
-- 
2.43.0


From eeec92e606381469b824db0c0d7c4d68e6b4ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:51 +0000
Subject: [PATCH 94/98] fix: escape strings in enumeration values that are
 records

---
 pysqlsync/dialect/mysql/object_types.py |  3 ++-
 pysqlsync/formation/object_types.py     | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index d64e0d8..8f880da 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -55,7 +55,8 @@ class MySQLTable(Table):
 
 class MySQLEnumTable(EnumTable, MySQLTable):
     def value_expr(self, value: Any) -> str:
-        return escape_backslash(super().value_expr(value))
+        expr = super().value_expr(value)
+        return escape_backslash(expr) if isinstance(value, str) else expr
 
 
 @dataclass(eq=True)
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 2ca6645..9b6bb15 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -3,7 +3,7 @@ import copy
 from dataclasses import dataclass
 from typing import Any, Iterable, Optional, overload
 
-from strong_typing.inspection import is_dataclass_instance
+from strong_typing.inspection import dataclass_fields, is_dataclass_instance
 
 from ..model.data_types import SqlArrayType, SqlDataType, SqlUserDefinedType, constant
 from ..model.id_types import LocalId, SupportsQualifiedId
@@ -627,7 +627,13 @@ class EnumTable(Table):
     def value_expr(self, value: Any) -> str:
         "Outputs an enumeration value as a literal."
 
-        return constant(value)
+        if isinstance(value, tuple):
+            return f"({', '.join(self.value_expr(v) for v in value)})"
+        elif is_dataclass_instance(value):
+            fields = dataclass_fields(type(value))
+            return self.value_expr(tuple(getattr(value, f.name) for f in fields))
+        else:
+            return constant(value)
 
     def values_stmt(self) -> str:
         "Populates the table with enumeration values."
-- 
2.43.0


From 78a741509db774f7ef890d5daec9d86449494fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:51 +0000
Subject: [PATCH 95/98] fix: write Booleans in enumeration values for Microsoft
 SQL Server as numbers

---
 pysqlsync/dialect/mssql/object_types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 6df6546..c9f2749 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -1,4 +1,4 @@
-from typing import Optional
+from typing import Any, Optional
 
 from pysqlsync.formation.object_types import (
     Column,
@@ -88,7 +88,14 @@ class MSSQLTable(Table):
 
 
 class MSSQLEnumTable(EnumTable, MSSQLTable):
-    pass
+    @override
+    def value_expr(self, value: Any) -> str:
+        "Outputs a literal in T-SQL, which has no Boolean literals."
+
+        if isinstance(value, bool):
+            return "1" if value else "0"
+        else:
+            return super().value_expr(value)
 
 
 class MSSQLNamespace(Namespace):
-- 
2.43.0


From e13e996ec632f8f21f5ace09fb3cb9cf17d1f600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:51 +0000
Subject: [PATCH 96/98] fix: write dates and times in enumeration values for
 Oracle as typed literals

---
 pysqlsync/dialect/oracle/object_types.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 300bf9a..d0dd883 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,5 +1,6 @@
+import datetime
 import re
-from typing import Optional
+from typing import Any, Optional
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
 from pysqlsync.model.data_types import (
@@ -65,7 +66,18 @@ class OracleTable(Table):
 
 
 class OracleEnumTable(EnumTable, OracleTable):
-    pass
+    def value_expr(self, value: Any) -> str:
+        "Outputs a literal independent of formats for date and time in the session."
+
+        expr = super().value_expr(value)
+        if isinstance(value, datetime.datetime):
+            return f"TIMESTAMP {expr}"
+        elif isinstance(value, datetime.date):
+            return f"DATE {expr}"
+        elif isinstance(value, datetime.time):
+            return f"INTERVAL '0 {value.replace(tzinfo=None).isoformat()}' DAY TO SECOND"
+        else:
+            return expr
 
 
 class OracleObjectFactory(ObjectFactory):
-- 
2.43.0


From b84a78bb62ba8929df18fca73650fd75c7777fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:16 +0000
Subject: [PATCH 97/98] fix: keep fractions of a second in records for
 Microsoft SQL Server

---
 pysqlsync/dialect/mssql/data_types.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index dc8451d..656cb67 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -94,14 +94,16 @@ def sql_to_odbc_type(data_type: SqlDataType) -> tuple[int, int, int]:
     elif isinstance(data_type, SqlFloatType):
         return pyodbc.SQL_FLOAT, data_type.precision or 53, 0
     elif isinstance(data_type, SqlDecimalType):
-        return pyodbc.SQL_DECIMAL, data_type.precision or 15, data_type.scale or 0
+        return pyodbc.SQL_DECIMAL, data_type.precision or 18, data_type.scale or 0
 
     elif isinstance(data_type, SqlTimestampType):
-        return pyodbc.SQL_TYPE_TIMESTAMP, data_type.precision or 6, 0
+        # datetime2(7)
+        return pyodbc.SQL_TYPE_TIMESTAMP, 27, 7
     elif isinstance(data_type, SqlDateType):
         return pyodbc.SQL_TYPE_DATE, 0, 0
     elif isinstance(data_type, SqlTimeType):
-        return pyodbc.SQL_TYPE_TIME, data_type.precision or 6, 0
+        # time(7)
+        return pyodbc.SQL_SS_TIME2, 16, 7
 
     elif isinstance(data_type, SqlFixedCharacterType):
         return pyodbc.SQL_CHAR, data_type.limit or 0, 0
-- 
2.43.0


From 4c6a38c96b0fda1c7e6d493a6fdee565612c8d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:51 +0000
Subject: [PATCH 98/98] fix: write changed defaults for Snowflake like those of
 new columns

---
 pysqlsync/formation/mutation.py     |  2 +-
 pysqlsync/formation/object_types.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 77a909e..3949e31 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -184,7 +184,7 @@ class Mutator:
         if source.default is not None and target.default is None:
             statements.append("DROP DEFAULT")
         elif source.default != target.default:
-            statements.append(f"SET DEFAULT {target.default}")
+            statements.append(f"SET DEFAULT {target.default_expr}")
 
         if source.identity and not target.identity:
             statements.append("DROP IDENTITY")
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 9b6bb15..6ae8b73 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -231,10 +231,19 @@ class Column(DatabaseObject):
     def column_spec(self) -> str:
         return f"{self.name} {self.data_spec}"
 
+    @property
+    def default_expr(self) -> str:
+        "The default value as an expression of the dialect."
+
+        if self.default is None:
+            raise ValueError("default value is NULL")
+
+        return self.default
+
     @property
     def data_spec(self) -> str:
         nullable = " NOT NULL" if not self.nullable and not self.identity else ""
-        default = f" DEFAULT {self.default}" if self.default is not None else ""
+        default = f" DEFAULT {self.default_expr}" if self.default is not None else ""
         identity = " GENERATED BY DEFAULT AS IDENTITY" if self.identity else ""
         return f"{self.data_type}{nullable}{default}{identity}"
 
-- 
2.43.0

