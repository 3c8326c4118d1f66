#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to rewrite that file)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

DE, SE, CORE, COMPAT = "serde/de.py", "serde/se.py", "serde/core.py", "serde/compat.py"

prop("C01", "Every supported value survives to_dict/from_dict and to_tuple/from_tuple",
     "For a serde class whose fields use any composition of the documented types (primitives, list/tuple/set/dict families and their abstract variants, deque, Counter, defaultdict, Optional, enums, literals, NewType, paths, decimals, UUIDs, IP addresses, dates and times, other classes), serializing an instance to a dict or a tuple and deserializing the result gives back an instance equal to the original in which every nested value has its original type. This holds whichever of the reuse_instances and convert_sets options are used.",
     ["inputs", "programs"], "every type expression up to a nesting bound, as a class field, every boundary value of each leaf type, both shapes, every option combination",
     "The tests try one or two hand-picked values per flat type; nested compositions (a set of tuples in a defaultdict in an Optional...) are combinatorial and reach different code-generation branches.",
     [SE, DE, COMPAT], [("rendering of serializer code per type", "se.py Renderer.render"), ("rendering of deserializer code per type", "de.py Renderer.render"), ("type classification", "compat.py is_* helpers")],
     ["to_dict/from_dict", "to_tuple/from_tuple"])

prop("C02", "Every format round-trips and carries exactly the dict/tuple representation",
     "Writing a value with to_json, to_yaml, to_toml, to_msgpack (named or not) or to_pickle and reading it back with the matching reader yields an equal value with the original types, whenever the format can represent it. The text or bytes written decode, with the format's own library, to exactly what to_dict (or to_tuple, for unnamed MsgPack) returns for the same options, and JSON behaves the same with the standard library and with orjson. Options documented for a writer (skip_none, convert_sets, reuse_instances, cls) have their effect in every format that accepts them.",
     ["inputs", "programs", "configurations"], "every bounded type expression and boundary value, every format, both JSON backends, every writer option",
     "Tests round-trip a fixed list of values per format; they do not compare the formats with each other or options across formats for composite types.",
     ["serde/json.py", "serde/yaml.py", "serde/toml.py", "serde/msgpack.py", "serde/pickle.py", SE, DE],
     [("format front ends delegating to to_dict/from_dict", "serde/json.py, yaml.py, toml.py, msgpack.py, pickle.py")])

prop("C03", "The serialized shape of every value is the documented one",
     "to_dict produces a mapping with one entry per serialized field, in declaration order, whose values are the documented plain representations (containers element by element, sets as sets or as lists under convert_sets, enums as their value, string-like and date-like library types as text unless reuse_instances asks to keep them, nested classes as nested mappings); to_tuple produces the same as nested tuples. No instance of a user class, enum or reusable library type is left unconverted anywhere inside the result unless reuse_instances asks for it (values typed Any are always written as text, and sets inside values without declared element type become lists), and options given at a call override the defaults of the outermost class at every nesting level.",
     ["inputs", "programs", "configurations"], "every bounded type expression, every boundary value, every combination of call options and class defaults",
     "Round-trip tests cannot notice a representation that changed consistently on both sides; only a few literal outputs are asserted.",
     [SE, CORE], [("serializer code generation", "se.py Renderer"), ("generic object walk", "se.py to_obj")])

prop("C04", "Strict deserialization returns a value of the declared type or raises",
     "With the default strict checking, deserializing arbitrary plain data into a class either yields an instance in which every field value conforms to its declared type, or raises SerdeError; it never yields an object holding a value of another type and never fails with any other exception. Data lacking a required field, or giving None for a non-optional field, is always rejected. (Two limits: where an element of a container is already of the form the data uses, so that nothing converts it, the constructor's checker examines one element per container and construction; numeric keys of mappings are converted leniently.)",
     ["inputs", "programs"], "every pair (type expression, plain datum) from bounded universes of both, nested in fields, Optional and containers, dict and tuple shapes",
     "A few wrong-typed values are tried for a few types; the cross product of declared types and incoming data is never explored.",
     [DE, CORE, COMPAT], [("beartype instrumentation of constructors", "de.py deserialize / se.py serialize"), ("exception translation", "de.py from_obj and templates")])

prop("C05", "Type-check modes: coerce converts or fails, disabled passes through",
     "With type_check=coerce every primitive in the data (and in the object when serializing), at any depth inside containers and Optionals, is converted to its declared primitive type, and a value that cannot be converted, or None for a non-optional field, raises SerdeError (how the numeric leniency of the JSON and YAML readers for floats combines with it is left open). With type_check=disabled no check or conversion happens: primitive values pass through unchanged. The mode of one class never changes the behaviour of another.",
     ["inputs", "configurations"], "every primitive target type, every plain source value, every container position, all three modes, both directions",
     "Tests cover a couple of conversions of flat fields in each mode.",
     [SE, DE, CORE], [("coerce_object", "core.py"), ("suppress_coerce in renderers", "se.py, de.py")])

prop("C06", "Union fields keep the variant under every tagging",
     "For a field whose type is a union, the serialized form carries the documented External, Internal, Adjacent or Untagged representation for class members and the bare value for other members, and deserializing it yields the same variant with equal contents, except where members that carry no tag (all of them under Untagged; otherwise those that are not classes, such as dicts, and generic classes with arguments) are ambiguous, when the first matching member wins. Data whose tag names no member, lacks the tag or the content, or matches no member raises SerdeError. This holds for unions inside containers and Optionals and for any number and order of members.",
     ["inputs", "programs", "configurations"], "all member lists up to a bound over a pool of classes and plain types, all orders, all taggings, all placements, all values and all single-fault tag mutations",
     "Tests use fixed two- or three-member unions; member order, mixtures with containers and None, and malformed tags are sampled thinly.",
     [SE, DE, CORE], [("union templates", "se.py/de.py jinja 'union'"), ("Tagging", "core.py")])

prop("C07", "Unions passed directly to the API behave like union fields",
     "Passing a union type itself (plain, or wrapped in a tagging) to a serializer's cls argument or to a deserializer gives the same representation and the same result as a class field of that union with that tagging, with the same call options, in every format. The result does not depend on which other unions, orders of members, or taggings were used earlier in the process.",
     ["inputs", "programs", "histories"], "all member lists and orders, all taggings, all values, all call options, all sequences of two or three such calls",
     "Each test uses one union once; wrapper classes are cached process-wide under keys for which differently ordered unions compare equal.",
     [CORE, SE, DE], [("Cache of generated wrapper classes", "core.py Cache")],
     state=[{"name": "CACHE.classes", "meaning": "generated wrappers by union and tagging", "where": "core.py"}])

prop("C08", "Names on the wire follow rename, rename_all and alias exactly",
     "A field is written under its rename if it has one, otherwise under its name converted by the class's rename_all, otherwise under its own name, and never under an alias; it is read from that same name or from any of its aliases, with the canonical name and then earlier aliases taking precedence. This holds for every field type and in combination with defaults, Optional, skipping and unknown-field denial, and a field's naming never affects another field or a nested class.",
     ["inputs", "programs", "configurations"], "every combination of naming attributes over several fields of every kind of type, every case style, every subset of names present in the input",
     "Tests cover aliases for a few primitive fields; most field types and combinations are untested.",
     [SE, DE, CORE], [("conv_name / conv", "core.py"), ("alias lookup", "de.py _get_by_aliases")])

prop("C09", "Skip attributes omit exactly the fields they describe",
     "A field is left out of the dict output exactly when it is marked skip or skip_serializing, or one of its applicable conditions holds for its value (skip_if predicate, which replaces skip_if_false on the same field; falsy under skip_if_false; None under skip_if_none or under the skip_none call option; equal to its default under skip_if_default), where a class-level condition applies to every field that does not override it. The default is compared with the value itself, the other conditions look at what would be written. A field marked skip or skip_deserializing takes its default and ignores incoming data; a field that was left out because it equals its default or is None with default None is restored exactly on reading back.",
     ["inputs", "programs", "configurations"], "all combinations of skip attributes at field and class level with call options, over field types and values that do and do not meet each condition",
     "Tests exercise each attribute alone on primitive fields.",
     [SE, DE, CORE], [("skip_if functions", "core.py Field.from_dataclass"), ("serializer template", "se.py jinja 'dict'")])

prop("C10", "Absent fields get exactly their default; present ones never do",
     "When a field with a default or default_factory is absent from the input, the object gets that default, from a fresh factory call for each object; when it is present, the given value is used even if falsy, None (where allowed) or equal to the default. An absent Optional field without default becomes None, and any other absent field without default raises SerdeError; no combination of present and absent fields shifts a value to another field.",
     ["inputs", "programs", "configurations"], "every subset of present fields for every arrangement of required, default, factory, Optional, keyword-only and excluded fields",
     "Tests drop one field at a time in a handful of classes.",
     [DE, CORE], [("Renderer.default / Renderer.opt", "de.py"), ("Scope.defaults", "core.py")])

prop("C11", "Flatten splices a child's fields into its parent and back, losing nothing",
     "A flattened class field is written as the entries its own serialization would have, at the parent's level, and read back from them; a flattened Optional class is None exactly when none of its entries is present (in mappings; in tuples its elements are spliced in); a flattened dict receives exactly the entries no declared field claims and its entries are written back with the declared fields of its class winning. Round trips lose nothing and no key is delivered to a field it does not belong to, through any depth of flattening and with the child's own renames, skips, defaults and unknown-field denial respected.",
     ["inputs", "programs", "configurations"], "all parents and children up to a bound over field kinds, naming and skip attributes, nesting of flattening, and all inputs over the involved keys plus unknown ones",
     "Tests cover a dozen fixed class pairs.",
     [SE, DE], [("LRenderer.flatten / Renderer.dataclass", "se.py"), ("_project_flattened_data", "de.py")])

prop("C12", "Unknown keys are rejected when denied and ignored otherwise",
     "With deny_unknown_fields, deserializing a mapping succeeds only if every key is the wire name or an alias of a field (or is claimed by a flattened child or captured by a flattened dict), and raises SerdeError otherwise; without it, keys that match no field have no effect at all on the result. The setting applies to the class that declares it, at whatever depth it occurs, and not to the classes it contains or is contained in.",
     ["inputs", "programs", "configurations"], "every bounded arrangement of named, aliased and nested classes, denied or not at each level, and every set of extra keys at each level, including near misses (other fields' python names, other cases)",
     "Two or three inputs are tested on fixed classes.",
     [DE], [("deny check in template", "de.py jinja 'dict'"), ("_collect_known_fields", "de.py")])

prop("C13", "A type given directly to the API behaves as it does inside a class field",
     "Serializing or deserializing a value of any supported type passed directly (a list, tuple, dict, set, Optional, enum, literal, NewType, library type or class) gives the same representation (sets always as lists) and, for valid representations, the same result as for a class field of that type, and reading back what was written gives the original value, in every format that can represent it. Containers of unions given directly are not covered.",
     ["inputs", "programs"], "every bounded type expression and boundary value, dict/tuple/JSON/YAML/MsgPack/pickle",
     "Direct and in-field handling are two separate implementations; tests use the direct one for flat types only.",
     [SE, DE, CORE], [("to_obj", "se.py"), ("from_obj", "de.py")])

prop("C14", "Results do not depend on what the process did before",
     "The outcome of any (de)serialization call or class declaration is the same whatever other classes were declared, types used directly, calls made (successful or failed) or inspection done earlier in the process, and repeating a call gives the same outcome again. The only earlier actions with an effect are those documented to have one, such as registering a global serializer before declaring a class.",
     ["histories"], "all sequences of API operations up to a depth over an alphabet chosen to collide in every process-wide table",
     "Tests run each in one order; process-wide memo tables keyed by types that compare equal make order matter only for specific pairs.",
     [CORE, COMPAT, SE, DE], [("functools.cache on type helpers", "compat.py"), ("CACHE", "core.py"), ("GENERATION_STACK", "se.py, de.py")],
     state=[{"name": "memo tables", "meaning": "results per type object", "where": "compat.py"}])

prop("C15", "Concurrent use from several threads gives the single-threaded results",
     "When several threads use the API at the same time, including the first use of a plain dataclass, of a union or of another type that makes the library generate code on the fly, and declaration of classes sharing such a dataclass, every call returns exactly what it returns when run alone. No interleaving makes a call fail or leaves a class unusable.",
     ["schedules"], "all interleavings of two or three threads with up to a bounded number of preemptions at line granularity",
     "Tests are single-threaded.",
     [CORE, SE, DE], [("lazy code generation", "se.py/de.py is_dataclass_without_*, core.py Cache"), ("recursion guard GENERATION_STACK", "se.py, de.py")],
     state=[{"name": "GENERATION_STACK", "meaning": "classes being generated", "where": "se.py, de.py"}, {"name": "GENERATION", "meaning": "lock held while code is generated", "where": "core.py"}])

prop("C16", "Conversions never modify or entangle their inputs",
     "Serializing leaves the object unchanged and deserializing leaves the input data unchanged, and repeating either gives an equal result. A result has its own containers wherever an element type is declared, so modifying it does not change what it was made from (untyped and Any values, and everything under type_check=disabled, may be handed over as they are). Objects produced by separate deserializations share no mutable default: modifying one does not change another, the class, or later results.",
     ["inputs", "programs", "histories"], "every bounded type expression, value and option combination; two successive conversions with a modification in between",
     "Tests compare outputs, not the inputs afterwards, and do not mutate results between calls.",
     [SE, DE, CORE], [("templates building fresh containers", "se.py, de.py"), ("Scope.defaults", "core.py")])

prop("C17", "Custom (de)serializers apply exactly where they are declared",
     "A field-level (de)serializer handles that field and only it; a class-level one handles every value of its types in the fields of its class, at any depth in containers and Optionals, but not inside other classes (a legacy one, given as a function, handles fields of exactly the types it knows and no elements); a globally registered one handles its types in every class declared afterwards and in values passed directly, with later registrations overriding earlier ones for the same type. Precedence is field over class over global over built-in, a marker or skip signal falls back to the built-in conversion, and types not handled are unaffected.",
     ["inputs", "programs", "configurations", "histories"], "all subsets and registration orders of field, class, legacy and global converters over type positions in one or two classes",
     "Tests cover each mechanism alone and one precedence pair.",
     [SE, DE, CORE], [("implemented_methods tables", "se.py/de.py Renderer.render"), ("GLOBAL_CLASS_*", "core.py")])

prop("C18", "Generic classes convert with the type arguments actually given",
     "Deserializing into a generic class with concrete type arguments converts every field typed by a type variable, directly or inside containers, Optionals and nested generic classes, as a field declared with the corresponding argument would be, matching each variable to its own argument by identity of the variable and not by position or name elsewhere; serialization of generic instances equals that of the equivalent plain class. Using the same generic class with different arguments never mixes them up. Values of a variable are written as text whatever reuse_instances says. Unions as arguments, variables inside unions, flattened generic aliases and class-level converters for variables are not covered.",
     ["inputs", "programs", "histories"], "all bounded generic class graphs with one or two variables, swapped, renamed and nested, with all assignments of arguments from a pool including classes",
     "Tests use a few generic classes mostly with primitive arguments, for which wrong resolution is invisible.",
     [DE, COMPAT], [("resolve_type_vars", "compat.py"), ("Renderer TypeVar branch", "de.py")])

prop("C19", "A class's settings affect that class only",
     "Options given to one class's decorator (renaming, tagging, type checking, skip conditions, unknown-field denial, class variables, custom converters) do not change how a class it contains, a class containing it, its base class or its subclasses are handled; each class follows its own decorator wherever it occurs. A decorated subclass converts its own and its inherited fields under its own settings, and using a dataclass that has no decorator adds no checks to it and lets it convert with default settings.",
     ["programs", "configurations"], "all pairs of settings for two classes in every relation (contained, containing, base, derived, plain), every decoration order",
     "Tests check two or three option pairs.",
     [SE, DE, CORE], [("per-class Scope with scope.cls check", "se.py/de.py wrap")])

prop("C20", "Recursive and forward-referencing classes convert at any depth",
     "Classes that refer to themselves or to each other, through Optional, containers, unions or string annotations, and with any of them decorated or plain and in any order of declaration, convert every finite object graph shaped as a tree correctly in both directions.",
     ["programs", "inputs"], "all bounded reference graphs over two or three classes, all decoration orders, all trees up to a depth",
     "Tests have a handful of fixed recursive classes and one or two trees.",
     [SE, DE, COMPAT], [("GENERATION_STACK and iter_types recursion guards", "se.py, de.py, compat.py")])

prop("C21", "A transparent class is written and read as its single field",
     "A class declared transparent serializes to exactly what its one field serializes to, and deserializes from exactly what that field accepts, wherever it occurs (directly, in fields, containers, Optionals, unions, flattened if its field is a class) and in every format; class declarations that do not have exactly one such field are rejected with SerdeError.",
     ["inputs", "programs"], "every bounded inner type and value, every placement, every arrangement of extra fields",
     "Tests use two inner types at top level.",
     [SE, DE, CORE], [("transparent templates", "se.py/de.py"), ("get_transparent_field", "core.py")])

prop("C22", "User exceptions surface unchanged; library failures are SerdeError",
     "An exception raised by the user's own construction code (such as __post_init__ or a default factory) during deserialization reaches the caller as that same exception object, from any depth of nesting and in every format (inside a union it means that the member does not match); any failure of the data to match the declared type is a SerdeError, as is any failure inside user-supplied field converters. After a failure of either kind the same call with good data succeeds.",
     ["inputs", "programs", "histories"], "all placements of a raising class in nested structures, all exception kinds, all faults in surrounding data",
     "Tests raise one exception at top level.",
     [DE], [("UserError wrapping", "de.py templates and from_obj")])

prop("C23", "Dataclass features keep their meaning",
     "Keyword-only fields, field order, init=False fields, InitVar and ClassVar pseudo-fields, frozen, slotted and inherited dataclasses, custom defaults and __post_init__ behave under deserialization exactly as if the constructor had been called by hand with the converted values, in dict and tuple shapes alike; __post_init__ runs exactly once per constructed object. Class variables are serialized only when serialize_class_var is set.",
     ["programs", "inputs"], "all combinations of dataclass features over up to three or four fields in every order",
     "Tests use each feature in one class, mostly in the dict shape.",
     [SE, DE, CORE], [("constructor call in templates", "de.py"), ("fields()", "core.py")])

prop("C24", "Enums and literals accept exactly their members",
     "An enum field is written as the member's value (recursively for nested enums) and read back to the identical member, for every kind of enum and value, also as dictionary key and inside containers; a value that is no member's is rejected (numbers and booleans may be given as text, as formats with textual keys do). A Literal field accepts exactly the listed values, independently for every literal type in the class or elsewhere, and rejects everything else.",
     ["inputs", "programs"], "all enum kinds and value types, all sets of literal types up to a bound per class from a pool of colliding spellings, all member and non-member data",
     "Tests use a few enums and one literal type per class.",
     [SE, DE, CORE], [("deserialize_enum / enum_value", "core.py, se.py"), ("literal_func_name", "core.py")])

prop("C25", "NumPy scalars and arrays keep dtype, shape and values",
     "A field declared as a NumPy scalar or as an array with an element type is written as plain numbers (date-times as text) and read back as the same scalar type or an array of the same dtype, shape and values, alone and inside containers, Optionals and nested classes, in every format. Arrays of date-times, complex or extended numbers and shapes whose lists do not show them (such as (0, 3)) are not covered.",
     ["inputs", "programs"], "all supported scalar types and dtypes, boundary values, shapes up to rank 2 including empty, all placements",
     "Tests check mostly equality of values for one shape.",
     ["serde/numpy.py", SE, DE], [("numpy renderers", "serde/numpy.py")])

prop("C26", "Debugging and inspection do not change behaviour",
     "Turning the library's debug mode on or off, inspecting a class, or asking whether a class is serializable or deserializable changes no result of any declaration or conversion, and inspection of any class (whose defaults can be printed) succeeds and shows the generated functions of that class.",
     ["configurations", "programs", "histories"], "all bounded classes of the feature pool, declared and used with debug on and off, inspected before and after",
     "Debug mode is not compared with normal mode in tests.",
     [CORE, "serde/inspect.py"], [("gen()/add_func debug branch", "core.py"), ("Scope.__repr__", "core.py")])

prop("C27", "Numeric leniency of JSON and YAML reaches every float and nothing else",
     "By default from_json and from_yaml accept an integer (and YAML also a numeric string) wherever a float is declared, at any depth including containers, Optionals, unions (there a direct float member is chosen by exact type), nested and generic classes, and yield a float; booleans and other strings are rejected there. Non-float targets are never converted, and with coerce_numbers=False nothing is converted and the strict rules apply.",
     ["inputs", "programs", "configurations"], "all positions of a float target in bounded types, all numeric and non-numeric source scalars, the flag on and off, JSON and YAML",
     "Tests cover top-level fields and a list.",
     ["serde/json.py", "serde/yaml.py", DE], [("deserialize_numbers plumbing", "de.py")])

prop("C28", "MsgPack extension types select the class to read",
     "With ext_dict, to_msgpack writes the value under the code registered for its class and from_msgpack returns an instance of the class registered for the code found, in named and unnamed form, with equal contents; a class without a code, a code without a class, or data that is no extension raises SerdeError.",
     ["inputs", "configurations"], "all assignments of codes to classes up to a bound, all values, named and unnamed, all reader dictionaries",
     "One fixed pair is tested.",
     ["serde/msgpack.py"], [("ext_dict handling", "serde/msgpack.py")])

prop("C29", "Non-string mapping keys survive formats that only have string keys",
     "A mapping whose declared key type is int, float, an enum, a NewType of int, float or str, or a text-like or date-like library type is read back with equal keys of the declared type after passing through a format that turns keys into strings, for dict, Mapping, MutableMapping, defaultdict and Counter, at any nesting depth, if the format's library can write such keys at all (boolean keys excepted).",
     ["inputs", "programs"], "all mapping kinds times key types times nesting positions times key values, JSON (both backends), YAML, MsgPack",
     "Tests cover dict with int, float and IntEnum keys as direct fields.",
     [DE], [("dict_key", "de.py Renderer"), ("deserialize_enum", "core.py")])

prop("C30", "Serialize-only and deserialize-only declarations are independent",
     "Declaring the two directions separately, in either order and with different settings, makes each direction follow its own declaration exactly as if the other had not been given; a class declared for one direction only is reported so until it is used, works in that direction as declared and in the other one as an undecorated dataclass does, a later declaration of a direction replaces an earlier one, and declaring the same thing twice changes nothing. (The check strict mode adds to the constructor belongs to the class, so it acts in both directions.)",
     ["programs", "configurations"], "all pairs of settings for the two directions, both orders, repeated and missing declarations",
     "Tests use identical settings for both directions.",
     [SE, DE, "serde/__init__.py"], [("shared Scope per class", "se.py/de.py wrap")])

prop("C31", "The spelling of an annotation does not matter",
     "A type written with builtin or typing names, with Union/Optional or |, with repeated union members, as text, with quoted class names, or through (non-generic, non-recursive) PEP 695 aliases of any of its parts, as a field of any kind of declaration or given directly to the API, is handled exactly like its plain spelling, as is a generic class written as a PEP 695 statement: same wire form, same values read, same errors.",
     ["programs", "inputs"], "all bounded types and the class shapes of the other properties, in fourteen spellings, all values and one-change data",
     "Tests use one spelling per type; aliases are tested for one union.",
     ["serde/compat.py", SE, DE, CORE], [("normalize_type / dataclass_fields / iter_types", "serde/compat.py"), ("_from_obj, to_obj", "se.py, de.py")])

prop("C32", "User-chosen names never collide with the generated code",
     "Whatever legal Python name the user gives a field, class, enum, NewType or type variable - including every identifier the library's generated functions use, Python's builtins, and names the library derives from other fields - declaration succeeds and conversion behaves as with any other name (a dunder name excepted).",
     ["programs", "inputs"], "all identifiers found in the generated code of the feature pool plus builtins, in every role, all values and one-change data",
     "Tests use ordinary names.",
     [CORE, SE, DE], [("GENERATED_NAMES / Scope.bind_type / func_name", "core.py"), ("jinja templates", "se.py, de.py")])

prop("C33", "Classes mapped by SQLAlchemy convert like other dataclasses",
     "A dataclass mapped by SQLAlchemy (declaratively, with a mixin or registry, imperatively; plain, inherited, with relationships), decorated with any class options, is written and read attribute by attribute like an ordinary dataclass with the unwrapped types, alone, inside other classes, and given to the API directly; what is written does not depend on the session operations the object went through before. (Types of mapped attributes are not checked and serde.field() is not supported, as documented.)",
     ["programs", "histories", "inputs"], "all bounded column types, pairs of column kinds, relationship kinds, ways of mapping, positions, class options; session histories up to a depth; all values and one-change data",
     "Tests use three fixed classes that never meet a session.",
     ["serde/sqlalchemy.py", "serde/compat.py"], [("is_sqlalchemy_inspectable", "serde/sqlalchemy.py"), ("dataclass_fields", "serde/compat.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties;", [ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
