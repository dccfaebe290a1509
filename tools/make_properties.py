"""Writes properties.jsonl (one JSON object per line). Run from /verif."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PS = "pysqlsync/"
DG = [PS + f"dialect/{d}/generator.py" for d in ("postgresql", "mysql", "mssql", "oracle")]
DO = [PS + f"dialect/{d}/object_types.py" for d in ("postgresql", "mysql", "mssql", "oracle")]
DM = [PS + f"dialect/{d}/mutation.py" for d in ("postgresql", "mysql", "mssql", "oracle")]
DC = [PS + f"dialect/{d}/connection.py" for d in ("postgresql", "mysql", "mssql", "oracle")]
DD = [PS + f"dialect/{d}/discovery.py" for d in ("postgresql", "mysql", "mssql", "oracle")]

prop("C01", "Schema creation scripts execute and build a closed, complete schema",
  "For every set of entity classes and every supported combination of dialect and conversion options, the script that creates the schema from scratch runs to completion statement by statement on an empty database: every object is created exactly once, and only after every schema, type, table and column it mentions. After the script has run, the database holds exactly the schemas, types, tables, columns, keys and constraints that the generated schema model describes, and nothing else.",
  ["programs", "configurations"], "all class sets spread over one or more Python modules (entities, structs, enumerations, self and cyclic references, lists and sets of entities) x dialect x enum/struct/array mode x foreign-key and table-initialisation options",
  "Tests compare the text of about a dozen hand-written single tables; multi-module class graphs, cyclic references, shared types and most option combinations are never executed because no database server is available.",
  [PS+"formation/object_types.py", PS+"formation/py_to_sql.py", PS+"formation/mutation.py"] + DO,
  [("catalog construction and ordering", PS+"formation/py_to_sql.py:DataclassConverter.dataclasses_to_catalog"), ("namespace topological order", PS+"formation/object_types.py:Catalog.sort"), ("statement rendering", PS+"formation/object_types.py:Table.create_stmt/add_constraints_stmt"), ("create from empty state", PS+"base.py:BaseGenerator.create")],
  ["SQL text returned by generator.create(), executed on a reference database"])

prop("C02", "Migration turns any existing schema into exactly the target schema",
  "Given any existing schema and any target schema of the same dialect, if the tool accepts the migration then executing the migration script on a database holding the existing schema succeeds, and leaves the database holding exactly the target schema, except for objects whose removal the options forbid. This covers tables, columns (type, nullability, default, identity, description), unique, foreign and check constraints, enumeration values and composite type members. Changes of column type are those the database can make in place; the rows of lookup tables are data, not schema.",
  ["histories", "programs", "configurations"], "all pairs (and sequences) of class-set versions, dialects and options",
  "test_converter samples two hand-written mutations as expected text; ordering of additions, removals and constraint changes across several objects is never executed.",
  [PS+"formation/mutation.py", PS+"formation/object_types.py", PS+"formation/object_dict.py"] + DM,
  [("catalog, namespace, table, column, enum and struct diff", PS+"formation/mutation.py:Mutator"), ("dialect specific ALTER statements", "pysqlsync/dialect/*/mutation.py")],
  ["SQL text of generator.create() on a generator already holding a state, executed on a reference database"])

prop("C03", "Synchronising with an already matching schema emits nothing",
  "If the current schema already equals the desired one, no statement is emitted, whatever the dialect and options; and after a migration has been applied, asking for the same target again emits nothing. Equality does not depend on the order in which classes, modules or columns are discovered.",
  ["histories", "programs", "configurations"], "all class sets, dialects, options; repeated create calls; permutations of the discovery order",
  "No test applies a second synchronisation offline; the integration tests that do need database servers.",
  [PS+"formation/mutation.py", PS+"formation/object_types.py", PS+"model/data_types.py", PS+"base.py"],
  [("structural equality of schema objects", PS+"formation/object_types.py dataclass eq"), ("empty diff yields None", PS+"formation/mutation.py:Mutator.mutate_catalog_stmt")],
  ["return value of generator.create()/get_mutate_stmt()"])

prop("C04", "Removal permissions are honoured",
  "When dropping enumerations, structs, tables or namespaces is disabled in the synchronisation options, no migration removes an object of that kind, nor empties or cripples it (its columns, constraints and rows stay). Permission to drop a namespace covers the objects within, and a namespace stays as long as the target has a class in it. Objects outside the namespaces that the old or the new schema mention are never touched.",
  ["configurations", "histories"], "all 16 permission combinations x dialects x pairs of existing and target schema",
  "One test checks one hand-written pair with all permissions off at once, as expected text.",
  [PS+"formation/mutation.py"] + DG,
  [("MutatorOptions guards", PS+"formation/mutation.py:Mutator.mutate_namespace_stmt, mutate_catalog_stmt"), ("options passed to dialect mutators", "pysqlsync/dialect/*/generator.py")],
  ["objects and rows left in the reference database"])

prop("C05", "Impossible migrations and unsupported options are refused, not mangled",
  "A migration the tool cannot express is refused with a formation error and leaves both the tracked state and the database unchanged: removing a value from a standalone enumeration type, changing the definition of a constraint that keeps its name, changing a primary key, changing a member type of a composite type in use, or adding or removing an identity property on Microsoft SQL Server. Conversion modes a dialect does not support are refused when the generator is created, and supported ones are accepted.",
  ["programs", "configurations"], "all schema pairs containing at least one inexpressible change, mixed with expressible ones; all dialect x mode triples",
  "The tests never exercise the refusal paths except for modes used in integration tests.",
  [PS+"formation/mutation.py", PS+"dialect/mssql/mutation.py", PS+"base.py"] + DG,
  [("removed enum values", PS+"formation/mutation.py:Mutator.mutate_enum_stmt"), ("changed constraint", PS+"formation/mutation.py:Mutator.mutate_table_stmt"), ("mode checks", PS+"base.py:BaseGenerator._check_mode")])

prop("C06", "Migration keeps the data it was not asked to remove",
  "Rows present before a migration are still present afterwards: every column kept by the target schema with an unchanged type keeps its value in every row, and no kept table loses rows. When an enumeration column turns into a reference to a lookup table, each row refers afterwards to the lookup entry holding its former value, NULL stays NULL, and no enumeration value is lost.",
  ["histories", "inputs"], "all populated schemas x target schemas x dialects that support the migration",
  "Offline tests have no data; the integration tests that migrate an enumeration need servers and use one table.",
  [PS+"formation/mutation.py", PS+"dialect/postgresql/mutation.py", PS+"dialect/mysql/mutation.py", PS+"formation/object_types.py"],
  [("soft and hard drop", PS+"formation/object_types.py:Column.soft_drop_stmt, EnumType.soft_drop_stmt"), ("data copy", PS+"formation/mutation.py:Mutator.migrate_column_stmt, migrate_enum_stmt")],
  ["rows of the reference database before and after"])

prop("C07", "Identifiers and literals are quoted so that data never becomes SQL",
  "Whatever characters occur in table, column, schema, constraint or type names, enumeration values, default values and descriptions, each emitted statement tokenises in its dialect to the intended statement: every name appears as one quoted identifier denoting exactly that name, and every text value as one literal denoting exactly that text. No input can end a literal or identifier early or add a statement, and a script handed to a connection reaches the database as exactly its statements, whatever its literals, names and comments contain.",
  ["inputs"], "all Unicode strings for names, enumeration values, defaults, descriptions; all dialects",
  "Tests use names of plain letters and one description with an apostrophe.",
  [PS+"model/id_types.py", PS+"model/data_types.py", PS+"formation/object_types.py", PS+"dialect/postgresql/object_types.py", PS+"dialect/mysql/object_types.py"],
  [("identifier quoting", PS+"model/id_types.py:quote_id"), ("literal quoting", PS+"model/data_types.py:quote, constant, escape_like"), ("E-strings", PS+"dialect/postgresql/object_types.py:sql_quoted_string")])

prop("C08", "Bulk insert stores each record once, each value in its own column",
  "Inserting rows hands every record of the source to the database exactly once and in order, whatever the batch boundaries and whether the source is a list, a generator or an asynchronous iterator; each value reaches the column named for its position. Record positions marked as omitted (empty name or null type) and identity columns are left out of the statement and of the record alike; an unknown column name is rejected before anything is sent.",
  ["inputs", "histories"], "all tables, field orders, omissions, record sources and batch sizes around the batch limit, per dialect",
  "Data transfer is tested only against real servers; batch boundaries need over 100000 rows and are never reached.",
  [PS+"base.py", PS+"dialect/postgresql/connection.py", PS+"dialect/mssql/connection.py", PS+"dialect/oracle/connection.py"] + DG,
  [("batching", PS+"base.py:IterableDataSource.batches, AsyncIterableDataSource.batches"), ("selection and transformation", PS+"base.py:BaseContext._generate_records"), ("statement", PS+"base.py:BaseGenerator.get_table_insert_stmt"), ("COPY", PS+"dialect/postgresql/connection.py:PostgreSQLContext._insert_rows")],
  ["statements and records received by the database driver"])

prop("C09", "Upsert updates matching rows, inserts the rest, and touches nothing else",
  "After an upsert, for every supplied record there is exactly one row with its key and that row carries the supplied values; later records win over earlier ones with the same key. Columns that were not supplied keep their former value in existing rows, and rows whose key was not supplied are unchanged.",
  ["inputs", "histories"], "all tables (with and without unique columns, identity, single-column tables), subsets and orders of columns, sequences of upserts over colliding keys, per dialect",
  "Tests compare the statement text for two tables with all columns supplied; effects on existing rows are only seen on real servers.",
  [PS+"base.py"] + DG,
  [("MERGE", PS+"base.py:BaseGenerator.get_table_upsert_stmt"), ("ON CONFLICT", PS+"dialect/postgresql/generator.py:get_table_upsert_stmt"), ("ON DUPLICATE KEY", PS+"dialect/mysql/generator.py:get_table_upsert_stmt"), ("column selection", PS+"formation/object_types.py:Table.get_columns, get_value_columns, is_lookup_column")],
  ["rows of the reference database"])

prop("C10", "Delete removes exactly the rows with the given keys",
  "Deleting by key removes every row whose primary key is among the given values and no other row, whatever the key type and the number of keys; keys that match nothing are ignored. Tables without a single-column primary key are refused.",
  ["inputs"], "all key types (integers, strings, UUIDs), key lists with repetitions and misses, per dialect, through both the row and the object interface",
  "Deletion is tested only against real servers, with integer keys.",
  [PS+"base.py"] + DC,
  [("statement", PS+"base.py:BaseGenerator.get_table_delete_stmt"), ("key conversion", PS+"base.py:BaseContext._delete_rows, delete_data")],
  ["rows of the reference database"])

prop("C11", "Enumeration labels and lookup keys correspond one-to-one",
  "When rows are loaded into a table whose column refers to a lookup table, each label in the source is stored as the key of the one lookup entry with that label: missing labels are added once, existing ones reused across batches and loads, NULL stays NULL and is never added. Lists and sets of labels map element by element.",
  ["inputs", "histories"], "all label sequences over several batches and loads, NULLs included, per dialect",
  "Only exercised on real servers with one batch.",
  [PS+"base.py"],
  [("lookup merge", PS+"base.py:BaseEnumTransformer._merge_lookup_table"), ("label mapping", PS+"base.py:EnumTransformer, EnumListTransformer"), ("merge statement", PS+"base.py:BaseGenerator.get_table_merge_stmt")],
  ["rows of the lookup and data tables in the reference database"])

prop("C12", "Values sent to the database denote the values supplied",
  "For every supported Python field type and every value of it, the value handed to the driver decodes back to the supplied value under the convention of the column type (for example 16-byte UUID, packed network address, interval since midnight, JSON text, enumeration label), and NULL is passed as NULL. The row interface and the object interface, required and optional fields, encode a value alike.",
  ["inputs"], "all field types the dialect can store x all values incl. NULL x both interfaces x dialects",
  "Tests convert one or two records per dialect with required fields only.",
  [PS+"base.py"] + DG,
  [("object extractors", PS+"base.py:BaseGenerator.get_field_extractor"), ("row transformers", PS+"base.py:BaseGenerator.get_value_transformer"), ("dialect conversions", "pysqlsync/dialect/*/generator.py")])

prop("C13", "Objects round-trip through their table column by column",
  "Inserting or upserting data-class objects stores the value of each field in the column of the same name; the number and order of placeholders, columns and values always agree. An identity field left to its default is assigned by the database on insert; on upsert its value is used to find the row.",
  ["inputs", "programs"], "all entity classes (field orders, defaults, identity and unique keys) and object lists, per dialect",
  "Tests check records for three tables; alignment between statement and record is never checked for identity keys offline.",
  [PS+"base.py", PS+"dialect/postgresql/connection.py"],
  [("record extraction", PS+"base.py:BaseGenerator.get_dataclasses_as_records"), ("insert and upsert of objects", PS+"base.py:BaseContext.insert_data, upsert_data"), ("COPY", PS+"dialect/postgresql/connection.py:PostgreSQLContext.insert_data")])

prop("C14", "Column types can hold every value of the Python field type",
  "For every supported field type, the column type chosen by each dialect can represent every value the type admits: integer width and range annotations, text length limits, decimal precision and scale, time precision, fixed-size binary encodings, enumeration labels, literals and unions. An integer without annotation counts as 64 bits wide, and the length of text is counted in the unit of the column type. A column accepts NULL exactly when the field is optional.",
  ["inputs", "configurations"], "all scalar, annotated, literal, union, enumeration, list, set and struct types x dialect x conversion modes",
  "Tests list expected columns for fixed tables.",
  [PS+"formation/py_to_sql.py", PS+"model/data_types.py", PS+"model/properties.py"] + DG,
  [("type mapping", PS+"formation/py_to_sql.py:DataclassConverter.member_to_sql_data_type, simple_type_to_sql_data_type"), ("annotations", PS+"model/data_types.py:SqlDataType.parse_meta")])

prop("C15", "Discovered column types equal the types that were created",
  "For every column type a dialect emits, recognising it from what that dialect's catalogue reports about such a column (type name, full definition, length, precision, scale) yields a type equal to the one emitted, as far as the database itself tells types apart (synonyms count as equal). Unknown type names are reported as an error or as a user-defined type, never as some other built-in type.",
  ["inputs"], "all column types and parameters reachable from the type mapping, per dialect",
  "Discovery runs only against real servers; one unit test covers a few types.",
  [PS+"formation/data_types.py", PS+"formation/discovery.py"] + DD,
  [("type recognition", PS+"formation/data_types.py:SqlDiscovery"), ("dialect substitutions", "pysqlsync/dialect/*/discovery.py")])

prop("C16", "Create, discover and synchronise converge",
  "After a schema has been created by the tool, discovering it from the database catalogue reconstructs an equal model (as far as the database tells things apart), data operations on the discovered model act as on the created one, and synchronising with the same classes executes nothing. After any later change of the classes that is not refused, one synchronisation brings the database to the new schema, and the next one executes nothing. Whatever a session assumes about the database after synchronising or discovering, and after a synchronisation that fails before anything is changed, is what the database has at that time.",
  ["histories", "programs"], "all class sets and class-set changes, with the catalogue of the reference database served to the explorer, per dialect whose explorer is complete",
  "Needs a database server; offline tests cover none of it.",
  [PS+"base.py", PS+"formation/discovery.py", PS+"formation/constraints.py"] + DD,
  [("discovery", PS+"formation/discovery.py:AnsiExplorer"), ("synchronise", PS+"base.py:Explorer.discover, synchronize")],
  ["statements executed on the fake connection"])

prop("C17", "The common type of several column types loses nothing",
  "Combining column types yields a type able to hold every value of each operand, or reports that they are incompatible; the outcome is independent of order and grouping, and combining a type with itself changes nothing.",
  ["inputs"], "all lists of integer, floating, character and binary types with arbitrary width, sign, range and length, including dialect-specific classes",
  "Tests combine two or three fixed types.",
  [PS+"model/data_types.py"], [("type join", PS+"model/data_types.py:compatible_type")])

prop("C18", "Data classes derived from tables describe those tables",
  "Deriving a data class from a table yields a class with one field per column under the column's (keyword-safe) name, whose type admits the column's values, optional exactly when the column is nullable, marked as primary key exactly when the column is the key, and referring to the referenced class for foreign keys. Converting the derived class back yields an equivalent table.",
  ["inputs", "programs"], "all tables of the supported types, with nullable and required, key, defaulted and foreign-key columns",
  "The only test of this path is skipped.",
  [PS+"formation/sql_to_py.py"], [("reverse conversion", PS+"formation/sql_to_py.py:SqlConverter")])

prop("C19", "Generated Python code executes and redefines the same types",
  "The Python source generated for a module of data classes and enumerations is valid, and executing it defines classes with the same names, field names, order, types, defaults, members and documentation as the originals, where types refer to classes of the same module. Producing the code succeeds for every class that a generator accepts, such that debug logging does not alter the outcome of an operation.",
  ["programs"], "all modules of data classes and enumerations with scalar, optional, annotated, list, nested and enumeration field types, defaults and doc-strings",
  "The test that covers module output is skipped.",
  [PS+"python_types.py"], [("code generation", PS+"python_types.py:module_to_stream, dataclass_to_stream, enum_class_to_stream")])

prop("C20", "Tab-separated exchange is lossless",
  "Writing records to the tab-separated format and reading them back, synchronously or asynchronously, record by record or all at once, yields the same records: same count, order and values, including NULL, empty strings, tabs, line breaks, backslashes, non-ASCII text, and renamed or reordered columns.",
  ["inputs"], "all entity classes with supported field types and all value lists",
  "Tests round-trip a fixed set of friendly values.",
  [PS+"data/exchange.py", PS+"model/properties.py"], [("writer", PS+"data/exchange.py:TextWriter"), ("readers", PS+"data/exchange.py:TextReader, AsyncTextReader"), ("types", PS+"model/properties.py:tsv_type")])

prop("C21", "Connection strings decode exactly and passwords stay secret",
  "Parsing a connection string yields exactly the dialect, host, port, user, password, database and SSL mode that were percent-encoded into it, and printing parameters yields text that parses back to the same parameters without the password. The password never appears in printed parameters; unknown or repeated SSL modes are rejected.",
  ["inputs"], "all Unicode user names, passwords and database names, host names, ports and SSL modes",
  "Tests parse a few fixed URLs.",
  [PS+"factory.py", PS+"connection.py"], [("parsing", PS+"factory.py:get_parameters"), ("printing", PS+"connection.py:ConnectionParameters.__str__")])

prop("C22", "Query results keep their shape, order and values",
  "Query results are delivered as one item per row in order, as scalars for a scalar signature, tuples for a tuple signature and objects for a data-class signature with each field holding the like-named column. A result whose number of columns does not fit the signature, or an unsupported signature, is reported as an error and never truncated or padded.",
  ["inputs"], "all result sets (empty, single, many rows), row representations (tuple, sequence, mapping, attribute rows) and signatures",
  "Unit tests are absent; only exercised on servers.",
  [PS+"resultset.py"] + DC, [("unwrapping", PS+"resultset.py"), ("query_one/query_all", PS+"base.py:BaseContext")])

prop("C23", "Random test objects satisfy their class's constraints",
  "For every entity class and count, the random object generator returns exactly that many objects with distinct keys in which every field holds a value of the declared type within its declared constraints: integer range, string length, decimal precision and scale, enumeration and literal membership, optionality; structures, lists and sets are in JSON form, and optional fields are sometimes absent and sometimes present. A reference to another entity holds a value that the type of the referenced key admits. Classes with fields of an unsupported type, or a key that is neither an integer nor a UUID, are refused.",
  ["inputs", "programs"], "all entity classes with supported field types and constraints x counts x random seeds",
  "Tests generate one class and only look at the count.",
  [PS+"data/generator.py"], [("generator", PS+"data/generator.py:RandomGenerator, random_objects")])

prop("C24", "The dialect registry behaves like a map",
  "After any sequence of registering, unregistering and looking up dialects, a lookup returns the engine registered under exactly that name, an unknown or unregistered name is an error, and a second registration under a taken name is refused without replacing the first. Dialects whose dependency is missing are listed, and using them reports the missing dependency and nothing else.",
  ["histories"], "all sequences of register, unregister and lookup operations",
  "Tests make one or two fixed calls.",
  [PS+"factory.py"], [("registry", PS+"factory.py:register_dialect, unregister_dialect, get_dialect"), ("unavailable engines", PS+"factory.py:UnavailableEngine")])

prop("C25", "Schema models are deterministic, and merging them is a union",
  "The schema model and the script depend only on the set of classes, not on the order in which they are listed or on hash randomisation. Merging schema models yields the union of their objects without modifying or aliasing the right operand, merging equal definitions changes nothing, and different definitions under one name are refused.",
  ["inputs", "histories"], "all permutations of class lists, hash seeds, and all pairs and triples of schema models",
  "Tests run with one order and one hash seed.",
  [PS+"formation/py_to_sql.py", PS+"formation/object_types.py", PS+"formation/object_dict.py"], [("sorting", PS+"formation/py_to_sql.py:dataclasses_to_catalog"), ("merge", PS+"formation/object_types.py:Catalog.merge, Namespace.merge"), ("ordered dictionary", PS+"formation/object_dict.py:ObjectDict")])

prop("C26", "Driver failures surface with the failing query; sources are consumed once",
  "If the driver fails at any statement or batch, the caller gets a query error that carries the failing statement and the driver's error as its cause, nothing further is sent, and no failure is swallowed. Empty or blank statements are rejected before reaching the driver, empty record lists send nothing, and each record source is iterated at most once.",
  ["fault_sequences", "histories"], "all positions of an injected driver fault over all operations (execute, execute many, query, insert, upsert, delete) and batch layouts, per dialect",
  "No test injects a driver failure.",
  [PS+"base.py", PS+"util/dispatch.py"] + DC, [("error wrapping", PS+"base.py:BaseContext.execute, execute_all, query_all"), ("thread dispatch", PS+"util/dispatch.py:thread_dispatch")],
  ["calls received by the fake driver"])

prop("C27", "Derived data classes keep fields, order, types and defaults",
  "Turning a data class into an entity keeps every field with its type and default and makes exactly the chosen field the primary key; flattening replaces each nested structure by its fields in place under prefixed names, keeps all other fields, and carries over descriptions. An unknown key field is refused.",
  ["programs"], "all data classes with plain, optional, nested and defaulted fields and every choice of key field",
  "Tests use one or two fixed classes.",
  [PS+"model/entity_types.py", PS+"util/dataclasses.py"], [("make_entity", PS+"model/entity_types.py:make_entity"), ("flatten", PS+"util/dataclasses.py:flatten_dataclass, make_dataclass")])

prop("C28", "SSL mode decides exactly which connections are attempted",
  "For every SSL mode and every pattern of connection failures: a mode that requires encryption never attempts a plain connection, disabled never attempts encryption, prefer tries encrypted then plain, and allow tries plain then encrypted; after a success nothing more is attempted, and if all attempts fail the failure is raised. Certificates are verified exactly in the verifying modes and the host name exactly in the full mode; credentials, host, port and database reach the driver unchanged.",
  ["configurations", "fault_sequences"], "all SSL modes x failure patterns of the driver x connection parameters, for the dialects that support SSL modes",
  "Tests that use SSL need servers and do not inject failures.",
  [PS+"connection.py", PS+"dialect/postgresql/connection.py", PS+"dialect/mysql/connection.py"], [("mode dispatch", "pysqlsync/dialect/*/connection.py:open"), ("contexts", PS+"connection.py:create_context")],
  ["driver connect calls"])

prop("C29", "Classes land only in the schema their module is mapped to",
  "Every generated object, and every reference to it, carries the schema its module is mapped to: as a qualifier in dialects with schemas, as a name prefix in dialects without, and unqualified for the default schema. Two modules may not share a schema, a class from an unmapped module that leads to an object or a reference is refused, and equally named classes in different modules never collide.",
  ["programs", "configurations"], "all assignments of modules to schema names (including the default) x class graphs across modules x dialects",
  "Tests map a single module, mostly to the default schema.",
  [PS+"formation/py_to_sql.py", PS+"model/id_types.py"], [("mapping", PS+"formation/py_to_sql.py:NamespaceMapping, create_qualified_id"), ("identifiers", PS+"model/id_types.py")])

prop("C30", "Tables mirror entity classes: columns, keys, relations, documentation",
  "Each entity class becomes one table with one column per plain field in field order, carrying its default (a member of an enumeration by what the column stores, or none if labels are entries of a lookup table) and description; the primary key, identity and unique markers and every reference to another entity appear as the corresponding key or constraint on that column, pointing to the referenced table's key. Lists and sets of entities become join tables referring to both sides, enumerations become what the chosen mode prescribes with exactly the declared labels, and disabling foreign constraints removes the references of entity columns and nothing else (join tables always refer to both sides). Annotations declared as irrelevant make no difference.",
  ["programs", "configurations"], "all entity class graphs x dialects x options",
  "Tests list expected columns for fixed tables.",
  [PS+"formation/py_to_sql.py", PS+"formation/inspection.py", PS+"model/properties.py"], [("table conversion", PS+"formation/py_to_sql.py:dataclass_to_table, dataclass_to_constraints"), ("enum tables", PS+"formation/py_to_sql.py:_enum_table"), ("join tables", PS+"formation/py_to_sql.py:dataclasses_to_catalog")])

prop("C31", "Explorers and housekeeping act on exactly the object named",
  "Whether a table or a column exists, the list of tables, and the columns, keys and references of a single table are told as they are for exactly the name asked about, whatever characters names have and whatever similar names, other schemas, databases or users have: an unqualified name refers to the current schema, a table that does not exist is reported as such. Dropping a table or a schema drops exactly that (a table that does not exist is passed over), and dropping the objects created in a session, or all objects of a schema model, leaves the database as it was before.",
  ["histories", "programs"], "all histories of existence queries, table discovery, creation and removal of schemas and tables over arbitrary names, per dialect with an explorer; all class graphs created and dropped",
  "Tests that explore need servers, and have ordinary names only.",
  [PS+"formation/discovery.py", PS+"base.py"] + [PS+f"dialect/{d}/discovery.py" for d in ("postgresql", "mysql", "mssql", "oracle")] + [PS+f"dialect/{d}/connection.py" for d in ("mysql", "mssql", "oracle")], [("conditions on names", "pysqlsync/formation/discovery.py:_where_table; pysqlsync/dialect/*/discovery.py"), ("removal", "pysqlsync/dialect/*/connection.py:drop_schema; pysqlsync/base.py:drop_objects, drop_table_if_exists")])

prop("C32", "Work done is durable, connections are released, sessions independent",
  "When an operation has completed, its work is committed, such that closing the connection does not undo it. A session (`async with connection as context`) opens a connection of its own and closes it exactly once however its body ends, including by an exception, which it passes on unchanged; a connection object can be used for another session afterwards. Sessions that take place at the same time do not affect one another, neither do generators and connections that an engine makes with the same options, which are left as they were. Operations of blocking drivers do not keep other tasks from making progress. A session is set up such that quoted identifiers, key values, dates and times mean what the statements generated take them to mean.",
  ["histories", "schedules", "fault_sequences"], "all histories of operations and failures in sessions one after another or interleaved, per dialect with a driver",
  "Tests that open a connection need servers.",
  [PS+"base.py", PS+"util/dispatch.py"] + [PS+f"dialect/{d}/connection.py" for d in ("postgresql", "mysql", "mssql", "oracle", "redshift")], [("session", PS+"base.py:BaseConnection.__aenter__, __aexit__"), ("threads", PS+"util/dispatch.py:thread_dispatch"), ("settings", "pysqlsync/dialect/*/connection.py:open, close")])

prop("C33", "Markers and types of fields and classes are read as declared",
  "However the annotations of a field are nested (optional inside unique, unique inside optional, identity inside primary key, further annotations at any level), the library reads from them what was declared: the plain type, whether NULL is admitted, each of the marks primary key, identity and unique, and every other annotation exactly once; the type without marks reads as the same plain type and annotations. A data class is an entity exactly if it has a primary key, and a structure otherwise; name and type of its key are those of the field. The entity types of a set of modules are the entity classes these modules define, not those they import from modules outside the set. A union is a reference exactly if all its members are entities; the type behind a reference is the key type of the entity, optional exactly if the reference is; types that are not references are left as they are. The Python type for reading a field from text is the one of its values, and a type whose values are of several types is refused.",
  ["inputs", "programs"], "all nestings of annotations over all supported plain types, and all generated modules, including ones that import classes of one another",
  "Tests use a few annotations in one customary nesting.",
  [PS+"model/properties.py", PS+"formation/inspection.py", PS+"model/key_types.py"], [("fields", PS+"model/properties.py:get_field_properties, FieldProperties, tsv_type"), ("classes", PS+"formation/inspection.py:get_entity_types, is_entity_type, is_struct_type"), ("references", PS+"formation/inspection.py:is_reference_type, reference_to_key")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
