"""
C09: upsert updates matching rows, inserts the rest, and touches nothing else.

Histories of inserts, upserts and deletes by both interfaces run against the reference database by way of a stand-in for
the driver; a dictionary from key to values is the model, compared after every operation.
"""

import data as D
import history as H
import several
from drivers import DRIVER_DIALECTS
from vh import Part

PROPERTY = "C09"
RULE = "an upsert updates at least one existing row (or a delete removes some but not all rows); with several tables, the same operation on equally named tables in two schemas"
ASSUMPTIONS = [
    "RefDB (lib/refdb.py) executes upserts like the real databases do",
    "an upsert has the primary key, or (MySQL, Microsoft SQL Server, Oracle) the value that an existing row has in a unique column; "
    "values of unique columns are not moved from row to row",
    "an upsert into a table with an identity column names existing rows only, and has some other column (the database assigns the identity of new rows)",
    "columns left out for new rows are nullable or have a default",
]

PARTS = [
    Part("histories", lambda: H.histories(DRIVER_DIALECTS), H.run, quick=1200, thorough=25000),
    Part("unique", lambda: H.histories(("mysql", "mssql", "oracle"), keys=("int", "identity", "identity"), ops=("insert", "match", "match"), max_ops=5, max_keys=5, unique=True), H.run, quick=300, thorough=6000),
    # equally named tables in different schemas, by turns
    Part("several", lambda: several.histories(DRIVER_DIALECTS), several.run, quick=700, thorough=15000),
    Part("upserts", lambda: H.histories(DRIVER_DIALECTS, ops=("upsert",), max_ops=5, max_keys=4, max_records=6), H.run, quick=800, thorough=15000),
]
