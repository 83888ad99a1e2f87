"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []


def p(id, title, statement, over, text, tests, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})


SE, DE, CORE, COMPAT = "serde/se.py", "serde/de.py", "serde/core.py", "serde/compat.py"
TESTS = "tests/data.py pairs each feature with one or two literal values; "

p("C01", "Dict round trip returns an equal object",
  "For every supported type and every value of it, deserializing the output of to_dict with "
  "from_dict gives back an equal value of exactly the same types, with instances reused or not, "
  "with sets converted or not. This holds whether the type is a field of a class, nested in "
  "containers, or passed to the API directly.",
  ["inputs", "programs"], "all values of all type shapes built from the supported types",
  TESTS + "values and type compositions outside that list are never tried",
  [SE, DE, CORE], [("generated to_dict/from_dict functions", "serde/se.py Renderer, serde/de.py "
   "Renderer"), ("direct-type dispatch", "serde/se.py to_obj, serde/de.py from_obj")],
  ["return values of to_dict/from_dict"])
p("C02", "Tuple round trip returns an equal object",
  "For every supported type and value, deserializing the output of to_tuple with from_tuple gives "
  "back an equal value of the same types; to_tuple lists exactly the serialized fields in "
  "declaration order.",
  ["inputs", "programs"], "all values of all supported type shapes, field counts and orders",
  TESTS + "field order and position mistakes show only for particular class layouts",
  [SE, DE], [("iter templates", "serde/se.py TO_ITER, serde/de.py FROM_ITER")],
  ["return values of to_tuple/from_tuple"])
p("C03", "JSON, YAML and TOML round trips return an equal object",
  "For every value whose plain form the format can express, from_json(T, to_json(x)), "
  "from_yaml(T, to_yaml(x)) and from_toml(T, to_toml(x)) are equal to x with the same types, "
  "although the format turns object keys into strings and tuples and sets into lists. "
  "Caller-supplied se/de classes and keyword options are used and receive exactly the plain form.",
  ["inputs", "programs", "configurations"],
  "all values of all type shapes, for any serializer/deserializer honouring the format's contract",
  TESTS + "one literal per format",
  ["serde/json.py", "serde/yaml.py", "serde/toml.py", SE, DE],
  [("format front ends", "serde/json.py to_json/from_json and siblings"),
   ("numeric and enum key recovery", "serde/de.py dict_key, serde/core.py deserialize_enum")],
  ["return values of to_*/from_*; arguments seen by the serializer"])
p("C04", "MessagePack and pickle round trips return an equal object",
  "from_msgpack(T, to_msgpack(x)) equals x for named and positional encoding and for extension "
  "types selected through ext_dict (an unknown type or code raises SerdeError); "
  "from_pickle(T, to_pickle(x)) equals x. Caller-supplied se/de classes and options are honoured.",
  ["inputs", "programs", "configurations"], "all values, encodings, ext codes and options",
  TESTS + "extension types are tested with one pair of classes",
  ["serde/msgpack.py", "serde/pickle.py", SE, DE],
  [("front ends", "serde/msgpack.py, serde/pickle.py")], ["return values; serializer arguments"])
p("C05", "The plain form is exactly the documented one",
  "to_dict produces exactly the documented plain form: one entry per serialized field in "
  "declaration order, values converted recursively (enums to their value, paths, UUIDs, "
  "addresses and decimals to str, dates to ISO text, sequences to list or tuple, mappings to dict, "
  "nested classes to dict), nothing added and nothing lost. With instances not reused and sets "
  "converted the result holds only plain data at every depth.",
  ["inputs", "programs"], "all values of all type shapes",
  TESTS + "most tests compare only round trips, which a symmetric mistake survives",
  [SE], [("Renderer/LRenderer", "serde/se.py")], ["to_dict / to_tuple return value"])
p("C06", "Strict classes never hold a value of the wrong type",
  "With the default type check, neither deserializing arbitrary plain data nor calling the "
  "constructor ever yields an instance with a field whose value does not have the declared type "
  "(containers: the container type itself, and the sampled element); the attempt raises SerdeError "
  "instead. Well-typed data is never rejected.",
  ["inputs", "programs"], "all plain data values for every field type",
  "tests/test_type_check.py tries a handful of wrong literals",
  [DE, CORE, COMPAT], [("runtime type check of the constructor", "serde/de.py deserialize, "
   "serde/se.py serialize"), ("coercion suppressed", "serde/de.py Renderer.primitive")],
  ["constructed object or SerdeError"])
p("C07", "Malformed input raises SerdeError and nothing else",
  "Given arbitrary plain data (any mixture of None, booleans, numbers, strings, lists and string-"
  "keyed dicts) from_dict and from_tuple either return an instance or raise SerdeError; no other "
  "exception type escapes, and serializing a value the declared type does not allow raises only "
  "SerdeError.",
  ["inputs", "programs"], "all plain data up to the depth bound, all field types",
  "error tests use a few literals per type",
  [DE, CORE, SE], [("exception wrapping", "serde/de.py from_obj, serde/se.py to_obj")],
  ["exception type"])
p("C08", "Exceptions of user code reach the caller unchanged",
  "An exception raised by the class's own constructor or __post_init__ while deserializing is "
  "raised to the caller as the very same exception object, at any nesting depth, not wrapped and "
  "not swallowed; type-check failures are still SerdeError.",
  ["inputs", "programs"], "all inputs on which user code raises, any nesting position",
  "one test with one exception at depth one",
  [DE, COMPAT], [("UserError tunnelling", "serde/de.py templates and from_obj")],
  ["exception identity"])
p("C09", "A default is used exactly when the key is absent",
  "When a key is present its value is used, even if it equals None or a falsy value; when it is "
  "absent the default is used, or a fresh result of the default factory for every deserialization; "
  "a missing required field raises SerdeError naming the field.",
  ["inputs", "programs"], "all presence patterns of keys and all values",
  "tests use one or two presence patterns",
  [DE, CORE], [("default rendering", "serde/de.py Renderer.default"),
               ("defaults storage", "serde/de.py deserialize")],
  ["constructed object / SerdeError"],
  [("scope.defaults", "default values and factories of a class", "serde/core.py Scope")])
p("C10", "Field skip options omit exactly the fields they describe",
  "A field with skip, skip_serializing, skip_if, skip_if_false, skip_if_none or skip_if_default is "
  "left out of the dict form exactly when its option says so and all other fields are unaffected; "
  "skip and skip_deserializing fields ignore the input and take their default.",
  ["inputs", "programs"], "all values, all skip options, all field types and positions",
  "tests check one skipped and one kept value per option",
  [SE, DE, CORE], [("skip_if in templates", "serde/se.py dict template"),
                   ("predicate selection", "serde/core.py Field.from_dataclass")],
  ["to_dict output, constructed object"])
p("C11", "Class-wide skip options and skip_none omit exactly None or default fields",
  "Class options skip_if_none and skip_if_default and the API option skip_none omit exactly the "
  "fields that are None (or equal their default), at every nesting depth where the option applies; "
  "explicit per-field settings win over the class option; to_toml omits None by default.",
  ["inputs", "programs", "configurations"], "all values and combinations of class and API options",
  "tests cover single flat examples",
  [SE, CORE], [("skip_none plumbing", "serde/se.py"),
               ("class-level flags", "serde/core.py fields")],
  ["to_dict / to_toml output"])
p("C12", "Renaming maps every field to exactly one documented key in both directions",
  "With rename_all, every field without its own rename is written and read under the case-converted "
  "name, in all supported cases; a field's rename wins over rename_all and over the field name; "
  "the original name is then not accepted, and renaming applies per class, not to nested classes.",
  ["inputs", "programs", "configurations"], "all case styles, names, values, nested positions",
  "tests use one class per case",
  [SE, DE, CORE], [("name conversion", "serde/core.py conv"), ("lvalues", "serde/se.py LRenderer")],
  ["keys of the dict form; accepted keys"])
p("C13", "Aliases are accepted on input only, first match wins",
  "A field with aliases is read from its (renamed) name or, if that is absent, from the first "
  "alias present, for every field type; aliases are never written; when no name is present the "
  "default applies or SerdeError is raised.",
  ["inputs", "programs"], "all presence patterns of name and aliases, all field types",
  "tests use str fields only",
  [DE], [("alias lookup", "serde/de.py _get_by_aliases")], ["constructed object"])
p("C14", "Unknown keys are ignored, or all rejected with deny_unknown_fields",
  "By default keys that belong to no field never change the result and never cause an error; with "
  "deny_unknown_fields deserialization raises SerdeError if and only if some key is neither a "
  "field's wire name nor one of its aliases (names of flattened children included).",
  ["inputs", "programs"], "all key strings",
  "tests try one unknown key",
  [DE], [("known fields", "serde/de.py _collect_known_fields")], ["object or SerdeError"])
p("C15", "Flattening inlines children and round-trips",
  "A flattened dataclass field contributes exactly its own entries to the parent's dict and is "
  "rebuilt from them; a flattened dict captures exactly the entries that belong to no declared "
  "field, never overwrites a declared field, and is merged back on output; the round trip returns "
  "an equal object.",
  ["inputs", "programs"], "all values, optional/default children, two nesting levels",
  "tests use a few literals; key clashes and absent children are hardly tried",
  [SE, DE], [("flatten rendering", "serde/se.py, serde/de.py"),
             ("projection", "serde/de.py _project_flattened_data")],
  ["to_dict output, constructed object"])
p("C16", "Union members are tagged and resolved as documented",
  "For a union-typed field or element, each tagging (External, Internal, Adjacent, Untagged) "
  "produces its documented representation and deserializing it yields the same member class with "
  "the same value; untagged data resolves to the first declared member that accepts it; data that "
  "fits no member, or a missing or unknown tag, raises SerdeError.",
  ["inputs", "programs", "configurations"], "all member values, taggings, tag names, positions",
  "tests use fixed unions with literal values",
  [SE, DE, CORE], [("union functions", "serde/se.py and serde/de.py union templates")],
  ["plain form, type and value of the result"])
p("C17", "Unions passed directly to the API behave like union fields",
  "Serializing with cls=Union[...] and deserializing into Union[...] directly, with the default or "
  "an explicit tagging wrapper, gives the same representation and result as a field of that union, "
  "honours the API options, and never depends on member order for distinguishable members.",
  ["inputs", "programs", "configurations", "histories"], "all unions, taggings and options",
  "tests use a few unions, each once",
  [CORE, SE, DE], [("wrapper cache", "serde/core.py Cache")], ["API results"],
  [("CACHE.classes", "generated wrapper classes", "serde/core.py Cache")])
p("C18", "Type-check modes: coerce converts, disabled stores as is",
  "With type_check=coerce every primitive field holds declared_type(value) for convertible input "
  "and SerdeError is raised otherwise (None included), recursively in containers, both ways; with "
  "type_check=disabled the value is stored unconverted and unchecked; strict rejects it.",
  ["inputs", "configurations"], "all values and target types",
  "tests use a few literals",
  [CORE, SE, DE], [("coerce_object", "serde/core.py")], ["field values / SerdeError"])
p("C19", "Literal fields accept exactly their listed values",
  "A field of Literal type deserializes successfully exactly for its listed values (for fields, in "
  "containers, in unions and passed directly) and returns that value; any other value raises "
  "SerdeError; several Literal types in one class do not interfere.",
  ["inputs", "programs"], "all input values, all literal lists",
  "tests use fixed lists of literals", [DE, CORE], [("literal functions", "serde/de.py")],
  ["result or SerdeError"])
p("C20", "Enums are written by value and read back to the same member",
  "Every enum kind (Enum, IntEnum, Flag, IntFlag, str mixins, tuple values, nested enums) is "
  "written as its innermost value and read back to the identical member, as field, element, dict "
  "key (also when the format made the key a string) and default; a value of no member raises "
  "SerdeError.",
  ["inputs", "programs"], "all members and all non-member values",
  "tests use literal members", [SE, DE, CORE],
  [("enum_value", "serde/se.py"), ("deserialize_enum", "serde/core.py")], ["wire value, member"])
p("C21", "Numbers are coerced to float exactly when the format front end says so",
  "from_json and from_yaml turn an int (for YAML also a numeric string) into float exactly where a "
  "float is declared, at every nesting depth, inside the members of unions and for types passed "
  "directly, and nowhere else; booleans and non-numbers are rejected with SerdeError; with "
  "coerce_numbers=False, and in the other formats, no such coercion of fields takes place. (A value "
  "that is itself a union member is matched by its own type; type arguments of generic classes "
  "convert like types passed directly.)",
  ["inputs", "programs", "configurations"], "all numbers and non-numbers at all positions",
  "tests use single fields", ["serde/json.py", "serde/yaml.py", DE],
  [("deserialize_numbers plumbing", "serde/de.py")], ["field types / SerdeError"])
p("C22", "Field-level custom serializers and deserializers are applied once and win",
  "A field's serializer is called with exactly the field's value and its result is stored "
  "unchanged; a field's deserializer gets exactly the plain value; they win over class-level and "
  "global ones, affect no other field, and the default_(de)serializer markers restore the built-in "
  "behaviour.",
  ["inputs", "programs"], "all values, all field types, containers, defaults",
  "tests use a datetime format example", [SE, DE],
  [("custom_field_*", "serde/se.py, serde/de.py")], ["calls received by the custom functions"])
p("C23", "Class-level and global custom serializers apply exactly to the types they handle",
  "A class-level or registered global (de)serializer is used for every field or nested element "
  "whose type it declares and for no other; a class-level one wins over the global one; the legacy "
  "function form is offered every field and SerdeSkip falls back to the built-in behaviour.",
  ["inputs", "programs", "configurations"], "all values and positions, registration states",
  "tests use a datetime example", [SE, DE, CORE],
  [("class_serializers dispatch", "serde/se.py, serde/de.py Renderer.render")],
  ["plain form and constructed object"])
p("C24", "Transparent classes are represented by their single field",
  "A class with transparent=True is written exactly as the plain form of its one field and read "
  "back from it, in every format, nested position and with every field type; a class without exactly one "
  "such field is rejected when it is defined.",
  ["inputs", "programs"], "all field types and values, all class layouts",
  "tests use an int and a str", [SE, DE, CORE],
  [("transparent templates", "serde/se.py, serde/de.py"),
   ("get_transparent_field", "serde/core.py")], ["plain form, result, SerdeError at definition"])
p("C25", "Generic classes deserialize with the actual type arguments",
  "For a generic class the fields typed by a type variable are deserialized as the argument given "
  "at the point of use - directly, nested, inherited, in containers and with several variables - and "
  "round trips return equal objects of the right classes.",
  ["inputs", "programs"], "all type arguments and values",
  "tests use few instantiations", [DE, COMPAT],
  [("generic argument resolution", "serde/compat.py get_generic_arg")], ["constructed object"])
p("C26", "Class features: inheritance, InitVar, ClassVar, kw_only, init=False",
  "Inherited fields are (de)serialized with the subclass's own settings without changing the parent "
  "or siblings; keyword-only and init=False fields, InitVar, ClassVar (written only on request) and "
  "undecorated nested or top-level dataclasses behave like ordinary dataclasses; user classes are not "
  "modified observably beyond this.",
  ["inputs", "programs"], "all class layouts in the bound, all values",
  "tests use one class per feature", [SE, DE, CORE, COMPAT],
  [("per-class scope", "serde/de.py, serde/se.py wrap"), ("kw handling", "serde/de.py dict template")],
  ["plain form and constructed object"])
p("C27", "Results do not depend on what was defined or called before",
  "The result of any (de)serialization call depends only on its arguments, the class and the "
  "registered global (de)serializers: no sequence of other class definitions or API calls - same-named "
  "classes, reordered unions, other taggings, failed calls, other options - changes it.",
  ["histories", "programs"], "all short sequences of definitions and calls",
  "each test runs in a mostly fixed order and never compares with a fresh process",
  [CORE, COMPAT, SE, DE], [("type caches", "serde/compat.py cache"), ("wrapper cache", "serde/core.py")],
  ["result of a call after a history vs. without it"],
  [("CACHE", "wrapper classes by type", "serde/core.py"), ("lru caches", "type predicates", "serde/compat.py")])
p("C28", "Inputs are never modified",
  "Serializing leaves the object graph and deserializing leaves the input data exactly as they were, "
  "also when the call fails, for every feature combination (flattening, tagging, aliases, defaults, "
  "custom serializers).",
  ["inputs", "programs"], "all values and data, success and failure",
  "no test checks the input afterwards", [SE, DE], [("generated functions", "serde/se.py, serde/de.py")],
  ["argument before and after"])
p("C29", "reuse_instances and convert_sets act exactly where documented",
  "With reuse_instances, path-like, UUID, address, decimal and date values appear unchanged as the same "
  "object, otherwise as text; with convert_sets, sets appear as lists, otherwise as sets; an explicit "
  "argument wins over the class default, applies at every depth and changes nothing else.",
  ["inputs", "configurations"], "all values, depths and option combinations",
  "tests use flat examples", [SE, DE], [("option plumbing", "serde/se.py, serde/de.py")],
  ["plain form"])
p("C30", "A type means the same in every position",
  "Deserializing data as a field of type T, element of list[T], value of dict[str, T], Optional[T], item of a "
  "tuple, alias (of an alias) or field of a nested, inherited, flattened or transparent class gives the same value or "
  "the same failure in all positions; data which a field accepts gives the same value as T passed directly, type "
  "argument or union member (these convert primitives, or never convert, and may accept more or less); likewise for "
  "serialization.",
  ["inputs", "programs"], "all plain data, all T",
  "tests check positions separately with different literals", [SE, DE],
  [("direct-type dispatch vs generated code", "serde/de.py from_obj, Renderer")], ["API results"])
p("C31", "Calls are thread-safe after the classes are defined",
  "Concurrent first uses of types from several threads give the same results as sequential ones.",
  ["schedules"], "all interleavings of concurrent API calls",
  "no concurrent test", [CORE, SE, DE], [("CACHE, GENERATION_STACK", "serde/core.py, serde/de.py")],
  ["API results"])
p("C32", "NumPy scalars and arrays round-trip",
  "Values of the supported NumPy scalar, datetime and array types survive a round trip through every "
  "format with dtype and shape preserved.",
  ["inputs", "programs"], "all array contents, dtypes and shapes", "tests use small literal arrays",
  ["serde/numpy.py", SE, DE], [("numpy hooks", "serde/numpy.py")], ["API results"])
p("C33", "Names have no influence on one another",
  "A class behaves the same whichever distinct identifiers its fields, itself and its member classes have: fields "
  "with similar names never share serializers, defaults, skip conditions, aliases or data, and fields and member "
  "classes may have the same name as each other or as anything in the generated code.",
  ["programs", "inputs"], "all assignments of names to fields, classes and enums",
  "tests use a few fixed names", [SE, DE, CORE],
  [("generated function names and globals", "serde/core.py scope, mangle, GENERATED_NAMES")], ["API results"])
p("C34", "The serializing and the deserializing decorator are independent of each other",
  "to_* depends only on the options given to @serialize and from_* only on those given to @deserialize, in whichever "
  "order they are stacked; a class with only one of them works the other way with the default options.",
  ["configurations", "inputs"], "all pairs of option sets, both orders",
  "tests use @serde or equal options", [SE, DE],
  [("shared scope", "serde/se.py serialize, serde/de.py deserialize")], ["API results"])
p("C35", "Recursive and forward-referenced classes behave like any others",
  "Classes that refer to themselves or to each other - through Optional, containers, unions and type arguments, with "
  "annotations as text, decorated in any order - apply their options at every depth, round-trip, and accept and reject "
  "the same data on every level as a class written out without recursion.",
  ["programs", "inputs"], "all recursive class graphs and all object graphs of them",
  "tests use a linked list and one tree", [SE, DE, CORE],
  [("generation stack, lazily evaluated types", "serde/se.py, serde/de.py GENERATION_STACK, serde/compat.py")],
  ["API results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
