"""The properties and the manifest, in one place; run this file to rewrite both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O, T, E = "gemd/entity/object/", "gemd/entity/template/", "gemd/entity/"
U, J = "gemd/util/impl.py", "gemd/json/gemd_json.py"

# id: (title, statement, over, quantifier text, why tests cannot settle it, files,
#      [(mechanism, where)], [observe at], technique, note on the level)
SPEC = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    """Record one property."""
    assert len(title) <= 80, (id, len(title))
    SPEC[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                    mechanism=mechanism, observe=observe, technique=technique, note=note)


prop("C01", "A JSON round trip preserves the whole graph",
     "Serializing any object, or any nesting of lists, tuples and dictionaries of objects, and loading the result gives the same structure: every object reachable from it comes back exactly once, with the same type, the same field values and the same uids, and every reference between objects leads to the counterpart of the object it led to before, including shared objects and cycles. This holds for strings, files and copies alike and for every scope chosen for generated uids. References that were links to objects not in the document remain the same links.",
     ["inputs", "programs"], "every graph of entities that can be built with the public API (any size, sharing, cycles, any combination of fields, any text and any float), in any container",
     "The tests round-trip a handful of hand-written histories; the claim ranges over all graphs, field combinations, shared and cyclic references, uid assignments and scopes.",
     [J, "gemd/json/gemd_encoder.py", U, E + "dict_serializable.py"],
     [("flatten, substitute links, dump; rebuild with an object hook that indexes by uid", J), ("as_dict / from_dict", E + "dict_serializable.py")],
     ["gemd.json.dumps/loads/dump/load", "GEMDJson.copy"],
     "runtime monitoring: differential oracle over recorded object graphs (independent graph snapshot before and after each round trip)",
     "Held on the executions listed in the evidence; graphs are sampled, not enumerated.")

prop("C02", "A serialized document is complete, flat, ordered and deterministic",
     "The document written for any object or container lists every object reachable from it exactly once as a flat entry, in which each reference to another object is a link (scope and id) that resolves to exactly one entry, and each entry is preceded by everything it refers to, so that a single pass can rebuild it. Its entries carry all fields of the objects, apart from the lists that mirror the other end of a link, and writing the same objects again gives the same text. Flattening and thin serialization obey the same rules, and flattening refuses objects without uids only when no scope is given for new ones.",
     ["inputs"], "every graph and container, any uid assignment",
     "Tests inspect the document of a few examples; ordering and completeness must hold for every graph shape.",
     [J, U, E + "dict_serializable.py", "gemd/entity/has_dependencies.py"],
     [("flatten / writable_sort_order / substitute_links", U), ("dumps, thin_dumps, raw_dumps", J)],
     ["text of dumps/thin_dumps, result of flatten"],
     "runtime monitoring: offline trace checker over the emitted documents, parsed with the standard json module",
     "Held on the executions listed in the evidence.")

prop("C03", "Operations that only read leave every object as it was",
     "Serializing, copying, flattening, substituting without the in-place option, comparing, hashing, printing, traversing, indexing, sorting and asking for dependencies change no field of any object in the graph, and none of the containers passed in; the only permitted effect is that serialization gives a uid to an object that has none. Results do not share mutable structure with the originals in a way that lets a change of the one alter the other. This also holds when the operation ends with an error.",
     ["inputs", "histories"], "every graph and every sequence of read-only operations on it",
     "Tests check results, almost never that inputs stay untouched, and never for arbitrary sequences of operations.",
     [U, J, E + "base_entity.py", E + "dict_serializable.py", E + "util.py"],
     [("copying traversal in substitute", U), ("non-mutating equality", E + "base_entity.py")],
     ["public state of every object before and after"],
     "runtime monitoring: state-invariance monitor (deep freeze of the whole graph around each operation)",
     "Held on the executions listed in the evidence; state is what public fields show.")

prop("C04", "Documents written elsewhere load by the same rules",
     "A document loads correctly whatever its writer's habits: links may use any of an object's uids and any letter case of its scope, unknown fields are ignored with a warning, omitted optional fields take their defaults, formatting and the key order of entries do not matter, and links to objects absent from the document stay links. A document naming an unknown type, or one that is not valid JSON, is refused with an error rather than partly loaded. Loading never depends on documents loaded before.",
     ["inputs"], "every document that follows the published format, in any of the equivalent spellings",
     "Tests load documents that the library itself wrote, plus very few hand-edited ones.",
     [J, E + "dict_serializable.py", E + "link_by_uid.py"],
     [("object hook indexing by lower-cased scope and id", J), ("from_dict tolerating unexpected fields", E + "dict_serializable.py")],
     ["gemd.json.loads", "log output at WARNING"],
     "runtime monitoring: metamorphic oracle (documents edited as other writers would, result compared with the original objects)",
     "Held on the executions listed in the evidence; entries must follow what they refer to, as in every document the library writes.")

prop("C05", "Single objects survive dump and build, and their dictionary form",
     "Any value, bounds, attribute, template, link, file link, source or entity converted to its dictionary form (with nested objects or with links) and built from it again is of the same type and equal, field by field, to what it was. The dictionary form consists of JSON types only when dumped. This holds for every legal combination of field values.",
     ["inputs"], "every object of every serializable type",
     "Tests convert one or two examples per type.",
     [E + "dict_serializable.py", "gemd/entity/value", "gemd/entity/bounds", "gemd/entity/attribute"],
     [("as_dict / from_dict / dump / build", E + "dict_serializable.py")],
     ["dump, build, as_dict, from_dict, raw_dumps, raw_loads"],
     "runtime monitoring: round-trip monitor with an independent field table",
     "Held on the executions listed in the evidence.")

prop("C06", "Both ends of every bidirectional link agree after any history",
     "After any sequence of assignments, a process lists an ingredient exactly when the ingredient names that process, a material lists a measurement exactly when the measurement names that material, and a material is the output of a process exactly when it names that process, each listed once and by identity even among equal objects, and the others in a list keep their order. Taking over another material's process detaches the former output. Assigning a value that is refused, or assigning to the derived end, changes nothing on either side.",
     ["histories"], "every sequence of constructions, assignments, clearings, refused assignments, in-place substitutions and reloads",
     "Tests make one or two assignments; the guarantee is about arbitrary histories, including equal twins and refused steps.",
     [O + "process_run.py", O + "process_spec.py", O + "material_run.py", O + "material_spec.py", O + "ingredient_run.py", O + "ingredient_spec.py", O + "measurement_run.py"],
     [("setters that unlink the former and link the new partner", O + "*")],
     ["process, material, ingredients, measurements, output_material of every object after every step"],
     "runtime monitoring: online invariant checker with a reference model over assignment histories",
     "Held on the histories listed in the evidence.")

prop("C07", "Every field accepts exactly what it documents; a refusal changes nothing",
     "Each constrained field of each entity and attribute type accepts the documented kinds of values (including a single element for a list, or a link where a reference is wanted) and refuses every other kind with an error, both in the constructor and on assignment. A refused assignment leaves the object and all objects around it exactly as they were. An accepted list is the object's own: changing the list that was passed in does not change the object.",
     ["inputs", "histories"], "every field of every type, every kind of value, on objects in any state",
     "Tests try a few wrong types per field and do not look at the state after a refusal.",
     ["gemd/entity/setters.py", O + "*", T + "*", "gemd/entity/attribute/*", E + "base_entity.py"],
     [("validate_list, validate_str and typed setters", "gemd/entity/setters.py")],
     ["constructors and setters", "state of the graph around each"],
     "runtime monitoring: contract monitor on every setter, driven by a table of documented types",
     "Held on the executions listed in the evidence.")

prop("C08", "Typed lists hold only what they may hold, however they are mutated",
     "The list-valued fields of the model (tags, labels, attributes, file links, templates with bounds, and the like) behave as ordinary lists under every list operation, but never come to hold an element of an inadmissible kind: an operation that would introduce one is refused and leaves the list as it was. Template lists store every element as a pair of template and bounds (or none). Attribute lists of objects with a template apply the validation level to each element added, exactly once.",
     ["histories"], "every sequence of list operations with any iterables of elements on every list field",
     "Tests use append and extend on a few lists; most mutators and iterables are never tried.",
     ["gemd/entity/valid_list.py", "gemd/entity/setters.py", T + "has_property_templates.py", T + "has_condition_templates.py", T + "has_parameter_templates.py", O + "has_template_check_generator.py"],
     [("ValidList overriding the mutators of list", "gemd/entity/valid_list.py")],
     ["content of the list after every operation, exceptions, warnings"],
     "runtime monitoring: differential oracle against a plain list with an admissibility predicate",
     "Held on the histories listed in the evidence.")

prop("C09", "Identifiers are scoped case-insensitively, none lost or mixed up",
     "The uids of an object form a mapping in which scopes that differ only in letter case are the same scope: lookup, membership, removal, defaults and updates by any spelling find the same entry, and an attempt to store the same scope under another spelling is refused without changing anything. After any history of mapping operations the mapping holds exactly the entries an ordinary mapping with case-folded keys would hold. A link made from an object names a scope the object has (the requested one, in any case, or any when none is requested or fallback is allowed) and the id stored under it.",
     ["histories"], "every sequence of mapping operations with keys in any spelling",
     "Tests set and get a couple of keys; the mapping has two internal tables which only arbitrary histories can bring out of step.",
     [E + "case_insensitive_dict.py", E + "base_entity.py", E + "link_by_uid.py"],
     [("lower-cased key table beside the dict", E + "case_insensitive_dict.py"), ("LinkByUID.from_entity, to_link, add_uid", E + "link_by_uid.py")],
     ["every reading operation of the mapping after every step"],
     "runtime monitoring: reference-model monitor over histories of mapping operations",
     "Held on the histories listed in the evidence.")

prop("C10", "Equality is an honest comparison of content",
     "Two objects built alike are equal, also across graphs with cycles; two objects that differ in any field, or whose connected objects differ, are unequal. Equality is reflexive and symmetric, comparison with foreign things is false rather than an error, and every comparison ends. The documented exceptions: objects sharing a uid are compared without requiring lists that one side leaves empty, list order is ignored for entities, and an entity equals the (scope, id) pair and the links that name it.",
     ["inputs", "programs"], "every pair of objects of any types and graphs",
     "Tests compare small examples; symmetry, discrimination of every field and termination on cycles need many graphs.",
     [E + "base_entity.py", E + "dict_serializable.py", E + "link_by_uid.py"],
     [("_cached_equals with a per-comparison cache", E + "base_entity.py")],
     ["== and != both ways, hash"],
     "runtime monitoring: metamorphic oracle over twin graphs with single-field changes",
     "Held on the executions listed in the evidence; list order and empty-versus-filled lists between entities sharing uids are not judged.")

prop("C11", "References and links can be exchanged for one another without loss",
     "Replacing references by links turns every reference to an object into a link that names one of its uids, in the preferred scope (in any letter case) whenever the object has it; without the preferred scope it is refused unless fallback is allowed. Replacing links by objects resolves exactly the links that the index knows, and the one undoes the other. Both leave everything else (values, order, container types, aliasing, unresolvable links) as it was, in copies as well as in place.",
     ["inputs"], "every graph and container, every index and every preferred scope",
     "Tests substitute in small examples with one scope.",
     [U, E + "link_by_uid.py"],
     [("substitute_links, substitute_objects, recursive traversal", U)],
     ["results and originals of substitutions"],
     "runtime monitoring: inverse-operation oracle with expectations computed from the original objects",
     "Held on the executions listed in the evidence.")

prop("C12", "Traversals visit every entity exactly once",
     "Mapping or iterating over an object or any nesting of lists, tuples, sets and dictionaries (keys and values) visits each entity reachable through references exactly once by identity, even when entities are equal, shared or in cycles, and returns the results in visiting order; with unidirectional traversal, only references in the direction of dependency are followed. Assigning missing uids touches exactly the objects that have none, and an index leads from each uid of each object found to exactly that object.",
     ["inputs"], "every graph and nesting of containers",
     "Tests count visits in one or two histories.",
     [U],
     [("recursive_foreach, recursive_flatmap, set_uuids, make_index", U)],
     ["calls received by the visitor, index contents"],
     "runtime monitoring: exactly-once checker over recorded visit events, against an independent reachability search",
     "Held on the executions listed in the evidence.")

prop("C13", "Dependencies are complete, and the writable order respects them",
     "The dependencies an object reports are exactly the objects and links it refers to directly: template, spec, process, material, and the templates of its attributes, conditions and object templates, each once by identity. The writable order of the types puts every type after all types it can depend on. Sorting objects by it therefore always yields an order in which each object follows its dependencies.",
     ["inputs"], "every entity in every state of its fields",
     "Tests check the dependencies of a few objects.",
     ["gemd/entity/has_dependencies.py", O + "*", T + "*", "gemd/entity/attribute/*", U],
     [("_local_dependencies across the class hierarchy", "gemd/entity/has_dependencies.py"), ("writable_sort_order", U)],
     ["all_dependencies(), writable_sort_order()"],
     "runtime monitoring: completeness monitor comparing reported dependencies with an independent reading of all fields",
     "Held on the executions listed in the evidence.")

prop("C14", "Bounds contain, unite and grow as the sets of values they stand for",
     "Bounds of each kind contain other bounds or a value exactly when every value allowed by the argument is allowed by them, endpoints included and units converted; bounds of another kind or incompatible units are not contained, and things that are neither bounds nor values are refused. The union of two bounds of a kind contains both and nothing more than it must, updating makes the bounds equal to that union, and combining different kinds or incompatible units is refused leaving everything unchanged. No question changes its arguments.",
     ["inputs"], "all pairs of bounds and values of all kinds, in all units",
     "Tests evaluate a few intervals and sets.",
     ["gemd/entity/bounds/*", "gemd/units/impl.py", "gemd/entity/value/*"],
     [("contains, union, update of each kind", "gemd/entity/bounds/*"), ("_to_bounds of each value", "gemd/entity/value/*")],
     ["contains, union, update"],
     "runtime monitoring: model-based oracle (intervals and sets with an independent unit table)",
     "Held on the executions listed in the evidence; answers within floating-point rounding of an endpoint in other units are not judged.")

prop("C15", "Values and bounds never hold data outside their domain",
     "No construction or assignment can bring a value or bounds to hold data outside its domain: real bounds finite and ordered, integer bounds integral and ordered, categories and components sets of strings, probabilities not summing to anything but one, formulas with real elements only, integers integral, structures carrying their notation's prefix. Everything inside the domain is accepted and stored faithfully. A refused assignment leaves the former content, and later changes to a collection passed in do not reach the stored one.",
     ["inputs", "histories"], "all candidate data for every field of every value and bounds type, after any history",
     "Tests try a few bad inputs per class.",
     ["gemd/entity/bounds/*", "gemd/entity/value/*"],
     [("property setters that check before storing", "gemd/entity/bounds/*, gemd/entity/value/*")],
     ["fields after every construction and assignment"],
     "runtime monitoring: domain-invariant monitor with an acceptance model, over assignment histories",
     "Held on the executions listed in the evidence; python without -O.")

prop("C16", "The validation level decides alike everywhere what becomes of bad values",
     "An attribute value outside its template's bounds, an attribute outside the bounds its object's template prescribes for it (matched by template, by a link to it, or by name), and an ingredient quantity that is negative, out of range or in the wrong kind of units are inconsistent; everything else is not. At level IGNORE inconsistent data are stored silently, at WARNING they are stored with a warning, at FATAL they are refused and nothing changes, whichever way they are set: constructor, assignment or list operation. Consistent data are stored without warning at every level.",
     ["inputs", "configurations", "histories"], "all values, templates, restricted bounds, ways of setting and validation levels",
     "Tests try each level on a few attributes and one or two ways of setting.",
     ["gemd/entity/bounds_validation.py", "gemd/entity/attribute/*", O + "has_template_check_generator.py", O + "has_quantities.py", T + "*"],
     [("raise_or_warn", "gemd/entity/bounds_validation.py"), ("template check generator", O + "has_template_check_generator.py"), ("quantity checks", O + "has_quantities.py")],
     ["stored value, warnings, exceptions"],
     "runtime monitoring: trace monitor with an independent containment model deciding each outcome per level",
     "Held on the executions listed in the evidence; answers within rounding of an endpoint in other units are not judged.")

prop("C17", "A validation level set for a block never outlives it",
     "Within a block that sets the validation level that level is in force, and when the block is left, normally or by any exception, return, or generator closing, the level is again what it was when the block was entered, at any depth of nesting. A level set outright stays until changed or until an enclosing block ends. Only the defined levels can be set; anything else is refused and changes nothing.",
     ["programs", "fault_sequences"], "every nesting of blocks, every way of leaving them",
     "The tests leave one block normally.",
     ["gemd/entity/bounds_validation.py"],
     [("validation_level context manager", "gemd/entity/bounds_validation.py")],
     ["get_validation_level() and the outcome of an inconsistent attribute at every step"],
     "runtime monitoring: stack-discipline monitor over random programs with injected exceptions",
     "Held on the programs listed in the evidence.")

prop("C18", "Parsing a unit expression keeps its meaning, and re-parsing changes nothing",
     "Any product or quotient of known units, with powers, parentheses and scaling factors in any spelling, parses to a canonical text with the same dimension and the same scale, independently of what was parsed before; parsing the canonical text returns it unchanged. Different scalings stay different. Malformed expressions and unknown units are refused with an error.",
     ["inputs", "histories"], "all unit expressions in all spellings, in any order",
     "Tests parse a list of examples.",
     ["gemd/units/impl.py", "gemd/units/citrine_en.txt"],
     [("scaling preprocessors and cached registry", "gemd/units/impl.py")],
     ["parse_units, and the units of values and bounds"],
     "runtime monitoring: model-based oracle (independent evaluator of unit expressions) plus idempotence monitor",
     "Held on the expressions listed in the evidence; logarithmic units and scaled offset units are not judged.")

prop("C19", "Unit conversion is correct, reversible, transitive and never invented",
     "Converting a number between two compatible units gives the result that the units' definitions prescribe, offsets included; converting back returns the number, going through a third unit makes no difference, and converting a unit to itself changes nothing. Conversion between incompatible units is refused with an error that names what does not fit, and repeated questions get the same answer. The base units of a unit are compatible with it.",
     ["inputs"], "all numbers and all pairs of the defined units, with prefixes",
     "Tests convert a few pairs.",
     ["gemd/units/impl.py", "gemd/units/citrine_en.txt"],
     [("convert_units, get_base_units with caches", "gemd/units/impl.py")],
     ["convert_units, get_base_units"],
     "runtime monitoring: table oracle (every defined unit) plus algebraic-law monitors",
     "Held on the executions listed in the evidence; rounding up to 1e-9 relative; logarithmic units not judged.")

prop("C20", "Changing the unit definitions takes effect wholly and at once, or not at all",
     "After switching to another definitions file every question about units (parsing, conversion, base units, compatibility, bounds) is answered by that file and by no answer remembered from before, whichever way the file is named; switching back restores the default answers. A file that is missing or cannot be read as definitions is refused with an error and leaves the definitions in force as they were. The working directory is never changed.",
     ["histories", "fault_sequences", "configurations"], "every sequence of switches, good and bad, interleaved with questions",
     "Tests switch once.",
     ["gemd/units/impl.py"],
     [("change_definitions_file resetting registry and caches", "gemd/units/impl.py")],
     ["answers to the same questions after every switch"],
     "runtime monitoring: staleness monitor over switch histories with injected bad files, in a scratch directory",
     "Held on the histories listed in the evidence.")

prop("C21", "Enumerated fields accept every spelling of their values and nothing else",
     "A value of an enumeration can be given as the member or as any of its documented texts in any letter case with any surrounding white space, and always denotes the same member; every other text, and anything that is not text, is refused (or is none where none is asked for), leaving the field as it was. Members print, compare and serialize as their canonical text. An enumeration in which two members share a text cannot be declared. A symbol declared as migrated still leads to its successor, with a deprecation warning; declaring it prints nothing.",
     ["inputs"], "all enumerations (also newly declared ones) and all texts",
     "Tests look up a few members.",
     ["gemd/enumeration/*"],
     [("BaseEnumeration.from_str / _missing_", "gemd/enumeration/base_enumeration.py")],
     ["constructor, from_str, fields that hold enumerations"],
     "runtime monitoring: table oracle over generated spellings and enumerations",
     "Held on the executions listed in the evidence.")

prop("C22", "Runs made from a spec mirror its connectivity, one run per spec",
     "Instantiating a spec makes exactly one new run for each spec it depends on (ingredients, processes and materials, to any depth), each naming its spec, with the same name, connected to one another just as the specs are, shared materials and cycles included. Nothing about the specs changes, and each call makes fresh runs. Anything that is not a spec is refused.",
     ["inputs"], "every graph of specs, starting from every kind of spec",
     "Tests instantiate a few trees.",
     [U, "gemd/util/__init__.py"],
     [("make_instance with a map of seen specs", U)],
     ["the runs reachable from the result"],
     "runtime monitoring: graph-isomorphism monitor pairing runs with specs",
     "Held on the executions listed in the evidence.")

prop("C23", "The builders make completely linked objects, and exactly those",
     "Building a node makes a process and a material, run and spec each, linked to one another and to the given templates; building an edge makes one ingredient run and spec connecting exactly the two given materials, with exactly the given quantities (zero included); building a measurement attaches one run and spec to the given material; adding an attribute adds exactly one of the right kind, with a value equal to that given, on the right object. Nothing else in the graph changes. Requests that cannot be satisfied are refused with an error.",
     ["inputs", "histories"], "every sequence of builder calls with any combination of arguments",
     "Tests call each builder with few combinations.",
     ["gemd/builders/impl.py"],
     [("make_node, add_edge, add_measurement, add_attribute, make_value, make_attribute", "gemd/builders/impl.py")],
     ["state of the graph after every call"],
     "runtime monitoring: reference-model monitor over build histories",
     "Held on the histories listed in the evidence.")

prop("C24", "A material history lists every connected object once, flat and rebuildable",
     "The history of a material (or of any object) lists every object connected to it exactly once, as a flat dictionary whose references are all links that resolve within the list, except those that were links to objects elsewhere already. Loading the list gives back an equal graph. Taking the history changes nothing, save that objects without a uid get one.",
     ["inputs"], "every graph of connected objects",
     "Tests take one or two histories.",
     [E + "util.py", J, U],
     [("complete_material_history", E + "util.py")],
     ["the list returned"],
     "runtime monitoring: completeness and exactly-once checker over the returned list",
     "Held on the executions listed in the evidence.")

prop("C25", "What a run takes from its spec follows the spec and is remembered",
     "While an ingredient run has a spec, its name and labels are the spec's, also after the spec has changed; when the spec is removed or replaced by a link, the run keeps the name and labels it had at that moment, untouched by later changes of the former spec, and keeps them through serialization, rebuilding and substitution. They cannot be set on the run itself. The template of any run is at all times that of its spec, and none without one.",
     ["histories"], "every history of changes to specs and of attaching, detaching, linking, serializing and rebuilding runs",
     "Tests detach once.",
     [O + "ingredient_run.py", O + "has_spec.py", O + "ingredient_spec.py"],
     [("name and labels properties and the spec setter", O + "ingredient_run.py"), ("template property", O + "has_spec.py")],
     ["name, labels and template of every run after every step"],
     "runtime monitoring: reference-model monitor over histories",
     "Held on the histories listed in the evidence.")

prop("C26", "A type string always means one class: the most derived that took it",
     "Every serializable class is written with its type string, and an object with that string is always read as an instance of the class registered for it: the class that declared it, or the descendant that last took it over. A class that is not a descendant of the holder cannot take a type string, and the attempt changes nothing. The mapping of types handed to users is a copy, fields that a class excludes are not written, and unknown types are refused.",
     ["programs", "histories"], "every sequence of class declarations, with instances read and written in between",
     "Tests declare two or three classes.",
     [E + "dict_serializable.py", J],
     [("metaclass registry", E + "dict_serializable.py"), ("lookup by type while loading", J)],
     ["class_mapping, type of every object read"],
     "runtime monitoring: reference-model monitor of the type registry over declaration histories, one process each",
     "Held on the histories listed in the evidence.")


prop("C27", "A printed object shows its whole content, and printing always ends",
     "The printed form (repr and str alike) of any object of the model, or of a container of them, is a Python dictionary literal (members of enumerations apart) that shows the type string and every field of the object with its exact value, objects it refers to being shown in full in turn. The lists and references that mirror the other end of a link are shown as well, but only by type and name, so that printing ends for every graph, with cycles and at any depth. Printing changes nothing.",
     ["inputs"], "every object in every graph, with any text and any number in its fields",
     "Tests look for a substring in the printed form of two or three objects.",
     [E + "dict_serializable.py", E + "link_by_uid.py", E + "case_insensitive_dict.py", E + "valid_list.py"],
     [("as_dict, plus skipped fields by name", E + "dict_serializable.py")],
     ["repr(), str()"],
     "runtime monitoring: differential oracle (the printed form read back as a literal against an independent reading of the fields)",
     "Held on the executions listed in the evidence; the order of fields is not judged.")


prop("C28", "The worked examples are complete, reproducible and faithful to their input",
     "In gemd.demo: for every seed, scope, set of templates and recipe, make_cake returns a complete, consistent history at the strictest level (every run has a spec, every material a process, every ingredient both ends, every object one uid, unique, in the chosen scope); equal seeds give equal cakes, different seeds and calls without a seed give runs with uids of their own; templates and recipe that are passed in are used and left unchanged. The importers (Strehlow & Cook table, experiment records, data frames) make exactly one measurement per record, with exactly the fields they recognise, and with the numbers, standard deviations, units and categories of the input; the tables made from these objects show the same values, in the units that the header declares.",
     ["inputs", "histories"], "every seed and scope, and every table or record of the shape the examples read",
     "Tests bake a few cakes and import the bundled tables, and look at counts and a few cells.",
     ["gemd/demo/cake.py", "gemd/demo/strehlow_and_cook.py", "gemd/demo/material_run_example.py", "gemd/demo/measurement_example.py", "gemd/demo/table_example.py"],
     [("make_cake, make_cake_spec, change_scope", "gemd/demo/cake.py"), ("make_strehlow_objects, make_strehlow_table, make_display_table", "gemd/demo/strehlow_and_cook.py"), ("ingest_material_run", "gemd/demo/material_run_example.py"), ("ingest_table", "gemd/demo/table_example.py")],
     ["objects and tables that the examples return"],
     "runtime monitoring: differential oracle (what the examples return against an independent reading of their input)",
     "Held on the executions listed in the evidence.")


prop("C29", "Calls do not disturb one another: among threads, within calls, after failures",
     "What a call of the library answers depends on its arguments and the objects they reach alone. Calls that run at the same time in several threads - on objects of their own, or reading the same objects, through one GEMDJson client or several - answer what they answer alone, wherever either is held up meanwhile, and readers leave what they read unchanged; answers once given (lists, dictionaries, sets, loaded objects) are the caller's: later calls neither change nor share them; so do calls that are made from within the callbacks, parsers and iterables that are handed to other calls, and the interrupted call is not disturbed either; and so do calls made after others that failed half-way (truncated documents, raising callbacks, refused types): nothing seen by a failed or an earlier call lingers, so a link to an object that only an earlier call saw stays a link.",
     ["schedules", "histories"], "every interleaving of threads, every nesting of calls and every point of failure",
     "Tests run one call after another in one thread, and almost never after a failure.",
     ["gemd/json/gemd_json.py", "gemd/util/impl.py", "gemd/units/impl.py", "gemd/entity/base_entity.py", "gemd/entity/util.py"],
     [("GEMDJson.loads, dumps, thin_dumps, copy (the index of a call)", "gemd/json/gemd_json.py"), ("visited and seen of flatten, substitute_*, recursive_*", "gemd/util/impl.py"), ("cached unit definitions and conversions", "gemd/units/impl.py"), ("cache of a comparison", "gemd/entity/base_entity.py")],
     ["what calls return, among threads and alone"],
     "runtime monitoring: stress threads with injected yields at lines of the library (sys.monitoring), calls held up at a random line while another runs, re-entrant calls and injected failures; oracle: the answer taken alone",
     "Held on the executions listed in the evidence.")

prop("C30", "A deep copy is equal, complete, separate, and lives by its own rules",
     "copy.deepcopy of an entity, an attribute, a value or a container of them gives a copy of everything that it reaches: of the same classes, with the same content, identifiers and wiring (also in cycles), equal to the original, and sharing no changeable part with it. Nothing is checked, logged, refused or changed while it is made, whatever the validation level and whatever was accepted before. From then on the copy behaves as an object that was made by the same steps: its lists accept, refuse and warn by the copy's own templates, its links between objects keep both ends in step among the copies, and nothing that is done to one of them is seen at the other.",
     ["inputs", "histories"], "every graph that the library lets exist, and every sequence of steps before and after the copy",
     "Tests copy a few small objects and compare them once; they do not go on working with the copy.",
     ["gemd/entity/valid_list.py", "gemd/entity/object/has_template_check_generator.py", "gemd/entity/base_entity.py", "gemd/entity/case_insensitive_dict.py", "gemd/entity/object/ingredient_run.py"],
     [("ValidList.__deepcopy__, triggers and what they hold", "gemd/entity/valid_list.py"), ("the check that an attribute list runs", "gemd/entity/object/has_template_check_generator.py"), ("mirrored lists of the objects", "gemd/entity/object/material_run.py")],
     ["copies and originals, by their public fields, after each step"],
     "runtime monitoring: copies are compared with a twin made by the same steps, then copy, twin and original go through further steps; oracle: isomorphism by the independent field table, separateness by identity, equal outcomes (acceptance, refusal, warnings) of copy and twin",
     "Held on the executions listed in the evidence.")
prop("C31", "Identifiers go to objects without any, under the scope asked for, never twice",
     "The calls that assign identifiers (dumps, dump, thin_dumps and copy of a client under the client's scope; flatten and set_uuids under the given scope; LinkByUID.from_entity under its scope, 'auto' if none; complete_material_history under 'auto') give exactly one identifier, a UUID in its usual spelling, to each object they reach that has none, under exactly the scope asked for, and leave every other object's identifiers as they are. An identifier that was assigned is never assigned to another object: not in other calls, by other clients, threads, forked or newly started processes, nor after the caller has reset random generators, nor to equal or later objects. What was assigned stays: later calls use it. Calls that are not meant to assign (flatten without a scope, raw_dumps, printing, comparing, hashing, as_dict) assign none.",
     ["inputs", "histories", "schedules"], "every graph, sequence of calls, number of processes and threads",
     "Tests look at a few identifiers in one process; that two coincide shows only in numbers, in other processes, or after a reset.",
     ["gemd/util/impl.py", "gemd/entity/link_by_uid.py", "gemd/json/gemd_json.py", "gemd/entity/util.py"],
     [("set_uuids", "gemd/util/impl.py"), ("LinkByUID.from_entity", "gemd/entity/link_by_uid.py"), ("flatten", "gemd/util/impl.py"), ("dumps, thin_dumps, copy", "gemd/json/gemd_json.py")],
     ["uids of all objects around every call"],
     "runtime monitoring: uids of all objects compared with a model around every call; a registry of every identifier ever assigned, fed from threads, forked and started processes, among reset generators and stopped clocks",
     "Held on the executions listed in the evidence.")

prop("C32", "What was asked before never shows in later answers",
     "Asking about objects (reading fields and views, printing, comparing, hashing, dumping, writing and copying as JSON, flattening, indexing, linking, searching dependencies, containment and union of bounds, validation against templates, conversion of units) has no effect on what comes later, other than that identifiers may be assigned where the call says so. After any changes - of fields, of lists, or deep inside values, bounds, quantities, links, sources, uids - every answer is the one the present state gives: the same as if the changes had been made with nothing asked in between; so are the errors and warnings the changes themselves end in, and the state after them. This holds for each of two alike objects when only one of them is changed.",
     ["inputs", "histories"], "every graph, sequence of changes (in one or both of two alike graphs) and questions in between",
     "Tests ask once about fresh objects; a kept answer is wrong only after the question, then a change through some other object, then the question again.",
     ["gemd/entity/dict_serializable.py", "gemd/entity/base_entity.py", "gemd/entity/attribute/property_and_conditions.py", "gemd/entity/bounds/real_bounds.py", "gemd/entity/bounds/categorical_bounds.py", "gemd/entity/link_by_uid.py", "gemd/units/impl.py", "gemd/util/impl.py"],
     [("dump, __eq__", "gemd/entity/base_entity.py"), ("contains, union", "gemd/entity/bounds"), ("views", "gemd/entity/attribute/property_and_conditions.py"), ("_flatten, make_index, substitute_*", "gemd/util/impl.py")],
     ["answers of 33 kinds of questions after every change, in a process that asked before and in one that did not"],
     "runtime monitoring: differential execution; the same changes on the same graphs in a forked process that asks nothing in between; outcomes, states and answers compared; answers of changed values, bounds, attributes and templates compared with those of objects made anew from the same fields",
     "Held on the executions listed in the evidence.")


def main():
    """Write both files."""
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for k, p in SPEC.items():
            f.write(json.dumps({
                "id": k, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B tools/smoke.py",
        "checks": [{
            "property": k, "quick_cmd": f"python3 check.py {k} --tier quick",
            "thorough_cmd": f"python3 check.py {k} --tier thorough",
            "evidence_file": f"evidence/{k}.json", "technique": p["technique"],
            "level": "exploration", "level_note": p["note"]} for k, p in SPEC.items()],
        "not_applicable": [],
        "notes": "gemd is pure Python without threads or native code: the family applies as "
                 "monitors and reference models over executions of the real code; compiler "
                 "sanitizers and race detectors have nothing to observe. No hooks in /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
