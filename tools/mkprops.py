#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="schemars/src/"; D="schemars_derive/src/"

p("G01","Every reference in a generated document leads to the right type's schema",
"In every generated root schema document, each `$ref` resolves inside that same document to the schema of exactly the type it stands for: no dangling reference, no placeholder left behind, and two different types never share one definition even when they choose the same name or names that collide with disambiguated ones. This holds for self-recursive and mutually recursive types and wherever the definitions are stored. The document therefore unfolds to the same (possibly infinite) tree as the types themselves.",
["programs","configurations"],
"All graphs of types (who refers to whom, how often, through which wrapper, which are inlined, which names they choose, which of them is the root), under every inlining setting and definitions path.",
"The tests snapshot a few hand-written recursive or same-named types under default settings; they never combine recursion, name collision, inlining and the choice of root, nor resolve the references they print.",
[S+"generate.rs",S+"encoding.rs",S+"lib.rs"],
[("subschema_for: reference or inline decision, name allocation, placeholder insertion",S+"generate.rs"),("root_schema_for: root reference '#', definitions merged at the definitions path",S+"generate.rs"),("add_definitions / json_pointer_mut",S+"generate.rs")],
state=[("definitions","name -> schema generated so far",S+"generate.rs"),("schema id -> name map, used names, pending ids, root stack","what has a name, what is being generated",S+"generate.rs")],
observe=["the returned Schema document"])

p("G02","A generator's history never changes what a type's schema means",
"Whatever calls were made before on the same generator (schemas or root documents for other types or for values, definitions taken, generator cloned), the schema it returns for a type, read together with the definitions it then holds or embeds, describes that type exactly as a fresh generator with the same settings would. Taking the definitions or cloning the generator never makes a later reference dangle or point at another type. Repeating the same calls gives identical output.",
["histories","programs"],
"All sequences of generator operations up to a bound, over all small type graphs with recursion, shared names and inlined types.",
"Each test calls a fresh generator once or twice; multi-operation histories (take definitions then reuse, clone then add a same-named type, two roots from one generator) are not sampled at all.",
[S+"generate.rs"],
[("SchemaGenerator::clone",S+"generate.rs"),("take_definitions / definitions_mut",S+"generate.rs"),("root_schema_for, root_schema_for_value, subschema_for on a used generator",S+"generate.rs")],
state=[("definitions vs. name maps","must stay in step across operations",S+"generate.rs")],
observe=["returned Schema plus definitions() of the generator"])

p("G03","Inlining settings and document layout are honoured",
"A type that asks to be inlined never appears as a definition; when everything is to be inlined only types that recursively contain themselves are referenced; otherwise every other type used gets exactly one definition, stored under the configured definitions path, and a fresh document contains no definition that nothing reaches. The root document carries the configured meta-schema identifier (none if none is configured) and a title that is the type's own title or else its name.",
["programs","configurations"],
"All small type graphs with all inline flags, under all settings of inlining, definitions path and meta-schema, through every way of producing a root document.",
"Snapshots show layout for a few types; whether a definition is missing, duplicated, unreachable or needlessly inlined depends on the graph shape and settings combination, which they do not vary.",
[S+"generate.rs",S+"macros.rs"],
[("subschema_for: inline decision",S+"generate.rs"),("root_schema_for / into_root_schema_for / schema_for!",S+"generate.rs, "+S+"macros.rs")],
observe=["returned Schema document"])

p("N01","References and pointers survive any characters in type names",
"For a type name made of any characters at all (slashes, tildes, percent signs, quotes, control or non-ASCII characters), the emitted `$ref` is a valid URI fragment which, percent-decoded and then read as a JSON pointer, leads to that type's definition. Looking up a fragment pointer on a schema finds precisely what a standards-conforming percent-decoder and JSON-pointer reader finds, and nothing when there is nothing.",
["inputs"],
"All short strings over an alphabet of every character class relevant to URIs, percent-encoding and JSON pointers; all short fragment strings including malformed escapes.",
"Unit tests encode and decode a dozen fixed strings; the bugs live in specific bytes and in malformed or adjacent escapes.",
[S+"encoding.rs",S+"schema.rs",S+"generate.rs"],
[("encode_ref_name",S+"encoding.rs"),("percent_decode",S+"encoding.rs"),("Schema::pointer / pointer_mut",S+"schema.rs")],
observe=["$ref strings in documents; Schema::pointer, Schema::pointer_mut"])

p("T01","Recursive transforms visit every subschema once and nothing else",
"A transform applied recursively reaches every subschema of a document, at any depth and under every applicator keyword of the supported JSON Schema dialects, exactly once each; a wrapped recursive transform sees each parent before its children. Plain data (enum, const, default, examples, required, extension values) and property names that look like keywords are never treated as schemas and come out unchanged.",
["inputs"],
"All schema documents up to a nesting depth, built from every keyword of draft 7 to 2020-12, single and in pairs, with object and boolean subschemas.",
"Tests and doc-tests apply one transform to one small schema; a keyword missed or treated as data at one position changes only documents nobody snapshot.",
[S+"transform.rs"],
[("transform_subschemas",S+"transform.rs"),("RecursiveTransform",S+"transform.rs")],
observe=["the calls a user's Transform receives; the resulting document"])

p("T02","Configured transforms are applied exactly once to everything that is output",
"Every way of producing a finished document or transformed definitions applies all configured transforms, in the configured order, once to each schema that is output; none is applied to intermediate subschemas, and definitions kept by the generator stay untransformed so that a later document is not transformed twice. All ways of producing a document for the same type and settings agree.",
["histories","configurations"],
"All sequences of output operations up to a bound on one generator, all orders of a set of non-commuting transforms, every output entry point, and every preset.",
"Tests use at most one or two transforms with one entry point each; double application and ordering only show with non-idempotent transforms and repeated output.",
[S+"generate.rs",S+"macros.rs"],
[("apply_transforms in root_schema_for, into_root_schema_for, root_schema_for_value, into_root_schema_for_value, take_definitions",S+"generate.rs")],
state=[("settings.transforms","ordered list of transforms",S+"generate.rs"),("definitions","kept untransformed",S+"generate.rs")],
observe=["returned Schema documents, definitions(), take_definitions(true)"])

p("T03","Converting a schema to another dialect does not change what it accepts",
"Rewriting a 2020-12 schema for draft 2019-09, draft 7 or OpenAPI 3.0 with the built-in transforms leaves the set of accepted values unchanged when read by the target dialect's rules (for unevaluated properties it never rejects a value that was accepted before), at every depth. The rewritten document no longer uses the keyword that the conversion is there to remove, and converting twice is the same as converting once.",
["inputs","configurations"],
"All schema documents up to a size bound over the keywords the library emits, for each transform and each preset, against all JSON values of a bounded universe.",
"Tests compare printed output for a few types; none evaluates the converted schema on values, so a conversion that loosens or tightens a nested schema is invisible.",
[S+"transform.rs",S+"generate.rs"],
[("ReplaceBoolSchemas, RemoveRefSiblings, SetSingleExample, ReplaceConstValue, ReplacePrefixItems, AddNullable, ReplaceUnevaluatedProperties",S+"transform.rs"),("SchemaSettings::draft07 / draft2019_09 / openapi3",S+"generate.rs")],
observe=["the transformed document's verdict on values"])

p("T04","Format restriction removes exactly the formats that are not allowed",
"With format restriction, every `format` that is neither explicitly allowed nor defined by the meta-schema in force at that point is removed at every depth, every other `format` is kept, and nothing else in the document changes. Meta-schema inference follows the nearest enclosing declaration, and an unrecognised meta-schema leaves everything beneath it alone, as does (when inference is on) the absence of any declaration.",
["inputs","configurations"],
"All schema trees up to a depth with any assignment of meta-schema declarations and formats to nodes, and all settings of the restriction.",
"One unit test covers one two-level schema starting from a known meta-schema; nesting of several declarations, absent declarations and switched-off inference are untested.",
[S+"transform.rs",S+"consts.rs"],
[("RestrictFormats",S+"transform.rs")],
observe=["the transformed document"])

p("S01","A schema value is always an object or a boolean and survives every operation",
"A schema can only ever be built from, or deserialized as, a JSON object or boolean, and no sequence of operations on it turns it into anything else or makes it panic; turning a boolean schema into an object keeps its meaning. Serializing a schema yields exactly the same JSON value it holds, and reading that back gives an equal schema. Keywords are emitted in the documented order without touching order inside data or property maps.",
["histories","inputs"],
"All sequences of schema operations up to a bound, starting from every kind of JSON value, and all small documents for serialization.",
"Unit tests call each method once on one value; sequences (boolean to object and back, mutation through pointers, nested keyword-like property names) are not explored.",
[S+"schema.rs",S+"macros.rs"],
[("Schema conversions, ensure_object, insert/remove/get, Deserialize",S+"schema.rs"),("ordered serialization",S+"schema.rs")],
observe=["Schema's public methods; serde_json of a Schema"])

p("O01","An optional type accepts exactly what the inner type accepts, plus null",
"For any inner schema whatever, the schema of the optional type accepts null and every value the inner schema accepts, and rejects every other value. This holds when the inner type is inlined or referenced, already nullable, constant, enumerated, composed, boolean, or itself optional.",
["inputs","configurations"],
"All inner schemas up to a size bound over the keywords the library emits, inlined or referenced, in each dialect, against all JSON values of a bounded universe.",
"Snapshots cover Option of a handful of concrete types; constant, empty, boolean and already-nullable inner schemas are mostly not reached.",
[S+"json_schema_impls/core.rs",S+"_private/mod.rs"],
[("Option<T> schema / allow_null",S+"json_schema_impls/core.rs, "+S+"_private/mod.rs")],
observe=["the generated document's verdict on values"])

p("D01","Deserialize schemas accept everything the type deserializes",
"For every type deriving both serde's Deserialize and the schema, whatever its shape and serde attributes (tagging, renaming, defaults, aliases, skipping, flattening, transparency, conversion, unknown-field policy), each JSON value in the type's serialized form that deserializes successfully is valid against the schema generated for deserialization. This holds in every supported dialect.",
["programs","inputs","configurations"],
"All type definitions up to a size bound over shapes and serde attributes, times all JSON values of a bounded universe built from the names in play, in every dialect.",
"Tests cover each attribute mostly alone on one type with a few sample values; combinations (e.g. flatten inside a tagged variant with renaming and defaults) and near-miss values are not.",
[D+"schema_exprs.rs",D+"attr/mod.rs",D+"ast/from_serde.rs",D+"attr/schemars_to_serde.rs",S+"_private/mod.rs"],
[("expr_for_struct / expr_for_enum and friends",D+"schema_exprs.rs"),("flatten, internally tagged helpers",S+"_private/mod.rs")],
observe=["schema verdict vs serde_json::from_value"])

p("D02","Serialize schemas accept everything the type serializes to",
"For every type deriving both serde's Serialize and the schema, whatever its shape and serde attributes, every value of the type that serializes successfully produces JSON valid against the schema generated for serialization. This holds in every supported dialect.",
["programs","inputs","configurations"],
"All type definitions up to a size bound over shapes and serde attributes, times all values of each type built from small field values, in every dialect.",
"Tests serialize one or two values per hand-written type; conditional skipping, per-direction renames and tagged combinations multiply beyond that.",
[D+"schema_exprs.rs",D+"attr/mod.rs",D+"ast/from_serde.rs",S+"_private/mod.rs"],
[("contract-dependent required/skip/name logic",D+"schema_exprs.rs"),("SchemaSettings::for_serialize",S+"generate.rs")],
observe=["schema verdict vs serde_json::to_value"])

p("D03","Derived schemas are tight: valid JSON deserializes, wrong JSON is rejected",
"For types whose fields' own schemas are exact, a JSON value that is valid against the deserialize schema really does deserialize: required fields are required, unknown fields are rejected where the type rejects them, variants and tags are constrained to those that exist, and skipped or direction-only fields and variants are absent. The serialize schema likewise requires every field that is always written and admits no variant that cannot be written.",
["programs","inputs"],
"All type definitions up to a size bound over shapes and serde attributes (excluding custom conversion functions), times all JSON values of a bounded universe.",
"A schema that accepts too much passes every positive test; the tests' negative samples are a few arbitrary values per type.",
[D+"schema_exprs.rs",D+"attr/mod.rs",S+"_private/mod.rs"],
[("required / additionalProperties / unevaluatedProperties / const tags",D+"schema_exprs.rs, "+S+"_private/mod.rs")],
observe=["schema verdict vs serde_json::from_value"])

p("D04","Schema attributes override, mirror and unset the serde ones exactly",
"Writing an attribute that serde understands as a schema attribute instead gives the same schema as the serde attribute would; where both are present the schema attribute wins; and unsetting an attribute gives the schema the type would have without it. Other attributes on the same item keep their effect.",
["programs"],
"All supported serde-compatible attributes at every place they may stand (container, variant, field), alone and in pairs, in serde form, schema form, overriding form and unset form, for both contracts.",
"Tests check a handful of overrides and unsets; the full attribute-by-position-by-form product is far larger and each cell has its own code path.",
[D+"attr/schemars_to_serde.rs",D+"attr/mod.rs",D+"attr/parse_meta.rs"],
[("process_serde_attrs",D+"attr/schemars_to_serde.rs")],
observe=["equality of generated schemas"])

p("D05","Validation attributes constrain the schema exactly as they say",
"A range, length, pattern, contains, required, format-type or per-item validation attribute on a field makes the schema reject exactly the values the constraint excludes for the JSON types it applies to, keeps accepting all others, and affects no other field. The same constraint written for any supported validation attribute family gives the same schema.",
["programs","inputs"],
"All validation attributes with boundary arguments over field types they can stand on, in each attribute family, times all JSON values of a bounded universe around the boundaries; all short substrings of special characters for contains.",
"Tests snapshot two large structs; boundary values, wrong-typed fields, wrapped and nested types and special characters are not evaluated.",
[D+"attr/validation.rs",S+"_private/mod.rs",S+"_private/regex_syntax.rs"],
[("ValidationAttrs::add_mutators",D+"attr/validation.rs"),("insert_validation_property, must_contain, apply_inner_validation",S+"_private/mod.rs")],
observe=["the generated schema's verdict on values"])

p("D06","Documentation, defaults and annotations are carried over faithfully",
"Doc comments and title, description, default, example, deprecated, read/write-only and extension attributes reach the schema of precisely the item they are written on, with the documented title/description split and every stated value unchanged; explicit attributes take precedence over doc comments. A field's `default` is the value serde would fill in, serialized, and appears only when it can be. Annotations never change which values the schema accepts unless the attribute says so.",
["programs","inputs"],
"All short doc comments over an alphabet of heading marks, blanks, newlines and text, at every place a doc comment may stand; all single and paired annotation attributes at every place; both contracts.",
"A few snapshot files show the common layout; line-break, heading and whitespace corner cases and attribute combinations are not covered.",
[D+"attr/mod.rs",D+"attr/doc.rs",S+"_private/rustdoc.rs",D+"schema_exprs.rs"],
[("CommonAttrs / doc merging",D+"attr/mod.rs, "+D+"attr/doc.rs"),("get_title_and_description",S+"_private/rustdoc.rs")],
observe=["the generated schema"])

p("D07","The derive macro never miscompiles or crashes: it expands or explains",
"For any syntactically valid type definition and any placement of the documented attributes, deriving the schema either produces code that compiles, or reports a proper compile error naming the problem; it never panics. In particular every attribute combination that is documented as valid compiles, and unknown, duplicated, malformed or conflicting schema attributes are rejected rather than silently ignored.",
["programs"],
"All type shapes times all single and paired attributes at every position, well-formed and malformed.",
"The UI tests cover about a dozen error cases; everything else is assumed to expand.",
[D+"lib.rs",D+"attr/mod.rs",D+"attr/parse_meta.rs",D+"attr/schemars_to_serde.rs",D+"bound.rs"],
[("derive_json_schema",D+"lib.rs"),("attribute parsing and errors",D+"attr/parse_meta.rs")],
observe=["rustc's diagnostics on generated programs"])

p("D08","Type names and identities separate exactly the types that differ",
"Different types or different instantiations of a generic type never end up sharing one definition unless they have the same schema, and the same type reached by different paths gets one definition. Generated names follow the documented rules for generics and renames.",
["programs"],
"All generic type shapes up to a bound (type, const and lifetime parameters, rename templates, remote and wrapper types) with pairs of instantiations used together in one document.",
"Tests snapshot individual names; collisions depend on which pair of instantiations meet in the same document.",
[D+"name.rs",D+"lib.rs",S+"lib.rs",S+"json_schema_impls/mod.rs"],
[("schema_name / schema_id generation",D+"name.rs, "+D+"lib.rs"),("forwarding impls and generic impls of std types",S+"json_schema_impls")],
observe=["definitions and references in documents"])

p("I01","Built-in type schemas accept every value those types serialize or deserialize",
"For every standard-library and supported third-party type that has a built-in schema, each JSON value it serializes to is valid against the serialize schema, and each JSON value in serialized form that it deserializes from is valid against the deserialize schema, including boundary values and maps with any supported key type.",
["inputs","configurations"],
"All supported types and one- and two-level compositions of containers over them, times a universe of boundary JSON values and of constructed values of each type, in every dialect.",
"Tests check a few values per type (often only a default one); boundaries of integer and char types, map keys, nested containers and time formats are not swept.",
[S+"json_schema_impls"],
[("per-type JsonSchema implementations",S+"json_schema_impls/*")],
observe=["schema verdict vs serde_json::to_value / from_value"])

p("I02","Built-in type schemas are tight",
"For every built-in type whose values can be described by JSON Schema (booleans, integers, characters, strings, tuples, arrays, sets, sequences, maps, options, results, wrappers), a JSON value that is valid against the schema deserializes into the type: integer ranges (through bounds or the documented integer formats), lengths, key patterns, element types and required members are all enforced.",
["inputs"],
"All such types and one- and two-level compositions of containers over them, times all JSON values of a boundary-rich bounded universe.",
"Negative samples in the tests are a fixed list of arbitrary values that miss the boundaries (range limits, tuple lengths, key formats).",
[S+"json_schema_impls"],
[("per-type JsonSchema implementations",S+"json_schema_impls/*")],
observe=["schema verdict vs serde_json::from_value"])

p("V01","A schema inferred from a value accepts that value",
"The schema generated from an example value validates that value's JSON serialization, for values of any serializable shape and nesting, and carries the value unchanged as its example. Lists and maps with mixed element types, optional values, empty collections, special keys and numeric extremes all keep this true, and generation fails only if the value cannot be serialized.",
["inputs","configurations"],
"All JSON-like values up to a size bound plus every serde data-model shape, in every dialect and contract.",
"Tests infer from two or three hand-written structs; heterogeneous, empty, and odd-key values are not covered.",
[S+"ser.rs",S+"generate.rs",S+"macros.rs"],
[("Serializer producing a schema",S+"ser.rs"),("root_schema_for_value / schema_for_value!",S+"generate.rs, "+S+"macros.rs")],
observe=["the inferred schema's verdict on the example"])

p("S02","Output is deterministic and property order is as promised",
"Generating the same schema twice, in any process, yields byte-identical JSON. With order preservation enabled, object properties appear in field declaration order through flattening, definitions, transforms and every dialect; without it they appear in sorted order, and both builds produce equal JSON values.",
["programs","configurations"],
"All small struct and enum definitions with permuted field names and flattened parts, in both build configurations and every dialect.",
"The suite runs with one build configuration and compares values structurally, so order and determinism are barely visible to it.",
[S+"schema.rs",S+"transform.rs",S+"generate.rs",D+"schema_exprs.rs"],
[("preserve_order feature; ordered map operations in transforms",S+"transform.rs"),("property insertion order",D+"schema_exprs.rs")],
observe=["serialized text of generated documents"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
