"Writes MANIFEST.json from the table below; run after adding a check."
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
T = {
 "C01": ("random schemas x dialect x options; emitted script executed statement by statement on a strict reference database, snapshot compared with the schema model", "Exploration of generated schemas against an executable model of four database engines (not the engines themselves)."),
 "C02": ("random pairs of schemas (model-based migration); script executed on the reference database, final snapshot compared with the target", "Exploration; the reference database models dependency, naming and conversion rules of the engines."),
 "C03": ("metamorphic: random schemas, re-ordered and re-built; migration to an equal schema must be empty", "Exploration."),
 "C04": ("random migrations x permission sets; before/after snapshots with rows and bystander objects compared", "Exploration on the reference database."),
 "C05": ("generated illegal migrations and all option combinations; refusal and unchanged state checked", "Exploration; option combinations are enumerated."),
 "C06": ("random migrations of populated schemas on the reference database; rows compared before and after", "Exploration on the reference database, including data migration statements it executes."),
 "C07": ("grammar-based fuzzing of names and texts; emitted SQL tokenised by an independent dialect-aware lexer", "Exploration; the lexer is an independent model of the dialects' lexical rules."),
 "C08": ("generated records, column orders, sources and batch sizes on fake drivers that execute on the reference database", "Exploration; drivers are stand-ins."),
 "C09": ("stateful: sequences of upserts compared with a dictionary model on the reference database", "Exploration; drivers are stand-ins."),
 "C10": ("generated rows and key sets; deletes compared with a set model on the reference database", "Exploration; drivers are stand-ins."),
 "C11": ("stateful: sequences of loads with labels; lookup table and keys checked against a bijection model", "Exploration; drivers are stand-ins."),
 "C12": ("generated field types and values; encoded values decoded by an independent convention; row and object interface compared", "Exploration."),
 "C13": ("generated classes and objects; statement, records and stored columns compared with the fields", "Exploration; drivers are stand-ins."),
 "C14": ("generated field types and boundary values; containment of values in the emitted column type by an independent model of types", "Exploration."),
 "C15": ("round trip: every emitted column type, reported through a model of the dialect's catalogue, is recognised as an equal type", "Exploration; catalogue reports are modelled from vendor documentation."),
 "C16": ("stateful: create, discover, synchronise over random schema histories with catalogue queries answered from the reference database", "Exploration; catalogue views are emulated."),
 "C17": ("algebraic laws (idempotence, commutativity, associativity, upper bound) over generated column types", "Exploration."),
 "C18": ("round trip: generated tables to data classes and back, field by field", "Exploration."),
 "C19": ("round trip: generated modules rendered to source, executed, and compared member by member", "Exploration."),
 "C20": ("round trip through the tab-separated format with generated records and column mappings", "Exploration; the installed parser is trusted for single values."),
 "C21": ("round trip and non-interference over generated connection strings", "Exploration."),
 "C22": ("generated result-sets and signatures through all fake drivers and directly, compared with the rows", "Exploration; drivers are stand-ins."),
 "C23": ("generated entity classes; produced objects validated against independently restated constraints", "Exploration."),
 "C24": ("stateful: operation sequences against a dictionary model; random subsets of missing drivers", "Exploration."),
 "C25": ("metamorphic: permuted class lists, repeated runs under different hash seeds, merge laws against a union model", "Exploration."),
 "C26": ("fault injection at every driver call of generated operations; error propagation and call log checked", "Exploration with injected faults; drivers are stand-ins."),
 "C27": ("generated data classes; derived classes compared field by field with an independent model", "Exploration."),
 "C28": ("generated outcomes per connection attempt on a stand-in driver; real in-memory TLS handshakes for the SSL contexts", "Exploration; server behaviour is simulated."),
 "C29": ("generated modules and namespace mappings; qualifiers of all emitted names checked", "Exploration."),
 "C31": ("stateful: generated histories over hostile names on the emulated catalogue against a set of names; created and dropped class graphs", "Exploration; servers and their catalogues are emulated."),
 "C32": ("stateful: generated histories of operations and failures in sessions, one after another or interleaved, on drivers with transactions, against the work committed", "Exploration; drivers are emulated."),
 "C33": ("generated nestings of annotations and generated modules; what is read compared with the specification they were built from", "Exploration."),
 "C30": ("generated entity classes; schema model compared with an independent derivation from the specification", "Exploration."),
}
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
        technique, note = T[p]
        checks.append({"property": p, "quick_cmd": f"./run {p} --tier quick", "thorough_cmd": f"./run {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json", "technique": "property-based testing: " + technique, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
  "notes": "No build step: checks import pysqlsync from /repo's working tree. Replay a failing case with ./run <property> --replay <file>."},
  open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
