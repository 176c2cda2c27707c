"""The properties and the value-flow summaries (views) that decide each of them."""

PROPS = {}


import json as _json, os as _os
ROOTS_GC = _json.load(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "roots_gc.json")))


def prop(pid, title, views, **kw):
    PROPS[pid] = dict(title=title, views=views, **kw)


def view(name, crates, root, **kw):
    v = dict(name=name, crates=crates.split(), root=root)
    v.update(kw)
    return v


def fns(name, crates, roots, **kw):
    """Pure-ish functions: every return value, write through a parameter and sink, with its guard."""
    v = dict(name=name, crates=crates.split(), roots=roots, kinds=["sink", "mut", "store", "write", "out"], returns=True)
    v.update(kw)
    return v


# ---------------------------------------------------------------- graphql-schema-validation
SV_ALIAS = {
    "DOC": "async_graphql_parser::parse_schema($str)@Ok.0",
    "DEF": "DOC.definitions[*]",
    "TYPE": "DEF@Type.0.node",
}


def sv(name, select, **kw):
    return view(name, "graphql_schema_validation", "graphql_schema_validation::validate_with_options", sinks=[r"(^|::)Context::push_error$"], keep={"Context::push_error": [1]},
                alias=SV_ALIAS, select=select, **kw)


prop("S01", "Reserved `__` names and duplicates are reported wherever they occur", [
    sv("reserved names", r"start with|must not begin|reserved"),
    sv("duplicates", r"[Dd]uplicate|not repeatable|used twice|can only include|There can only be"),
], statement="For every SDL document, validation reports an error for each user-defined name that starts with two underscores and for each definition, field, argument, enum value, union member or non-repeatable directive that occurs twice.",
   qtext="every SDL document", why="The tests hold a few dozen documents; the rule is about every place a name or a duplicate can occur, including extensions.",
   files=["crates/graphql-schema-validation/src/validate.rs"], mech=[("validate", "crates/graphql-schema-validation/src/validate.rs")])
prop("S02", "Every type reference and directive is used where its kind is allowed", [
    sv("positions", r"Unknown type|must be an? |an (input object|output type)\.|The type of|member of union type|has no fields|used at an invalid|cannot be deprecated"),
], statement="For every SDL document, validation reports each field, argument or union member whose type is unknown or of the wrong kind for its position (input versus output), each type without fields, each directive applied at a location its definition does not list and each required argument marked deprecated, and reports none of them otherwise.",
   qtext="every SDL document", why="Tests hold some dozens of documents; the rule concerns every combination of position, wrapper and kind, in definitions and extensions.",
   files=["crates/graphql-schema-validation/src/validate.rs"], mech=[("validate_arguments", "crates/graphql-schema-validation/src/validate/arguments.rs"), ("validate_output_type", "crates/graphql-schema-validation/src/validate/output_types.rs")])
prop("S03", "Interface implementation is checked against every declared interface", [
    sv("implements", r"implement|[Ii]nterface field|missing from the Interface"),
], statement="For every SDL document and every type that declares an interface, in its definition or an extension, validation reports a missing field, a field whose type is not a proper subtype, a missing, differently typed or additionally required argument, a missing transitive interface, a repeated interface and an unknown or non-interface target, and nothing else.",
   qtext="every SDL document", why="Covariance, wrappers, transitive interfaces and extensions multiply into far more cases than the sampled documents.",
   files=["crates/graphql-schema-validation/src/validate/interface_implementers.rs"], mech=[("validate_implements_list", "crates/graphql-schema-validation/src/validate/interface_implementers.rs")])
prop("S04", "Schema roots, extensions and input cycles are validated", [
    sv("roots", r"root|should be an object|schema definition"),
    sv("extensions", r"Cannot extend"),
    sv("cycles", r"Cannot reference"),
    sv("cycle search", r"^mut rec\(", kinds=["mut"], panics=False),
    fns("outcome", "graphql_schema_validation", ["graphql_schema_validation::validate_with_options", "graphql_schema_validation::validate", "graphql_schema_validation::diagnostics::Diagnostics::has_errors", "graphql_schema_validation::diagnostics::Diagnostics::iter"], sinks=[r"(^|::)Context::push_error$"], kinds=[]),
], statement="For every SDL document, validation reports every root operation type that is missing, not an object or used twice, every extension of an unknown type or of another kind when that is forbidden, and every input object that requires itself through non-null fields; a document that does not parse gives a syntax error, never an empty result.",
   qtext="every SDL document", why="The tests sample a few roots, extensions and cycles; the rule covers every combination of default and explicit roots, kinds and cycle lengths.",
   files=["crates/graphql-schema-validation/src/validate/schema_definition.rs", "crates/graphql-schema-validation/src/validate/input_object_cycles.rs", "crates/graphql-schema-validation/src/lib.rs"], mech=[("validate_schema_definition_references", "crates/graphql-schema-validation/src/validate/schema_definition.rs"), ("validate_input_object_cycles", "crates/graphql-schema-validation/src/validate/input_object_cycles.rs")])

# ---------------------------------------------------------------- rolling-logger
RL = "<RollingLogger as std::io::Write>::"
prop("L01", "Log rotation loses no bytes and happens exactly at the threshold", [
    fns("write and rotate", "rolling_logger", [RL + "write", RL + "flush", "rolling_logger::RollingLogger::new"], sinks=[r"fs::rename", r"File::(create|options)$", r"OpenOptions::(open|append|truncate|write)$"]),
    fns("strategies", "rolling_logger", ["rolling_logger::RotateStrategy::" + x for x in "never weekly monthly yearly daily hourly minutely size".split()]),
], statement="For every sequence of writes, clock readings and I/O results, the logger rotates before a write exactly when the configured age or size threshold has been reached, flushing and renaming the old file to its start timestamp before opening a new one, and every accepted buffer goes to the current file.",
   qtext="every sequence of writes, clock readings and I/O outcomes", why="The tests write a few lines with two or three clock values; the thresholds, the failure paths and the order flush-rename-open hold for all of them.",
   files=["crates/rolling-logger/src/lib.rs", "crates/rolling-logger/src/log_file.rs", "crates/rolling-logger/src/strategy.rs"],
   mech=[("RollingLogger::write", "crates/rolling-logger/src/lib.rs"), ("LogFile::needs_rotation", "crates/rolling-logger/src/log_file.rs")])

# ---------------------------------------------------------------- serde-dynamic-string
DS = "<DynamicString<T> as std::str::FromStr>::from_str"
prop("L02", "Environment templates in configuration strings resolve fully or fail", [
    fns("resolution", "serde_dynamic_string", [DS, "serde_dynamic_string::DynamicString::<T>::from_const_value"], sinks=[r"Write::write_str$"]),
    fns("value", "serde_dynamic_string", ROOTS_GC["L02"]["value"]),
], statement="For every configuration string and environment, each `{{ env.NAME }}` is replaced by the value of that variable and every other character is kept in order; if any variable is missing, any scope is not `env` or any part fails to parse, the whole string is rejected and no partial value is produced.",
   qtext="every configuration string and environment", why="The tests use a dozen templates; the rule is about any number and position of templates and any environment.",
   files=["crates/serde-dynamic-string/src/lib.rs"], mech=[("DynamicString::from_str", "crates/serde-dynamic-string/src/lib.rs")])

# ---------------------------------------------------------------- event-queue
EQ = "event_queue::EventQueue::"
EB = "event_queue::events::builder::"
prop("L03", "Hooks receive exactly the events their filter selects", [
    fns("filter", "event_queue", [EQ + x for x in "new push_operation push_subgraph_request push_http_request push_extension_event pop".split()] + ["<EventQueue as std::default::Default>::default"], sinks=[r"SegQueue::(<.*>::)?push$"]),
    fns("filter bits", "event_queue", [f"event_queue::filter::EventFilterType::{x}::{{constant#0}}" for x in "Operation SubgraphRequest HttpRequest Extension".split()]),
], statement="For every filter and every kind of event, the event is queued exactly when a filter is set and it selects all events or that kind; without a filter nothing is queued, and a filtered-out custom event is not even constructed.",
   qtext="every filter and event", why="The tests never construct the filtered combinations; the rule covers the whole product of filters and event kinds.",
   files=["crates/event-queue/src/lib.rs", "crates/event-queue/src/filter.rs"], mech=[("EventQueue::must_keep_event", "crates/event-queue/src/lib.rs")])
prop("L04", "Access-log events carry the values recorded for them", [
    fns("operation", "event_queue", [EB + "ExecutedOperationBuilder::<'a>::" + x for x in "name document track_prepare cached_plan status operation_type complexity has_deprecated_fields build".split()] + ["event_queue::events::ExecutedOperation::builder", "event_queue::events::ExecutedOperation::builder_with_default"]),
    fns("subgraph request", "event_queue", [EB + "ExecutedSubgraphRequestBuilder::<'a>::" + x for x in "push_execution cache_status graphql_response_status build".split()] + ["event_queue::events::ExecutedSubgraphRequest::builder"]),
    fns("subgraph response", "event_queue", [EB + "SubgraphResponseBuilder::" + x for x in "build headers status track_connection track_response".split()] + ["event_queue::events::SubgraphResponse::builder"]),
    fns("http request", "event_queue", [EB + "ExecutedHttpRequestBuilder::<'a>::" + x for x in "method response_status build".split()] + ["event_queue::events::ExecutedHttpRequest::builder"]),
], statement="For every sequence of values recorded while a request executes, the event built from them reports each value in the field of that name, subgraph executions in the order they happened, durations measured from the start of that request, and an error flag that is set exactly when the GraphQL status is not success.",
   qtext="every recorded value and order of recording", why="Tests check a handful of whole-gateway log lines; a swapped field or inverted flag shows only for particular outcomes.",
   files=["crates/event-queue/src/events.rs", "crates/event-queue/src/events/builder.rs"], mech=[("builders", "crates/event-queue/src/events/builder.rs")])

# ---------------------------------------------------------------- graph-ref
prop("L05", "Graph references parse to what they display and reject bad slugs", [
    fns("parse and display", "graph_ref", ["<GraphRef as std::str::FromStr>::from_str", "<GraphRef as std::fmt::Display>::fmt"]),
    fns("accessors", "graph_ref", ["graph_ref::GraphRef::" + x for x in "new latest_production_version latest_version slug branch version".split()]),
], statement="For every string, a graph reference is split at the first `@` and the first `#` after it into slug, branch and version, and printing it gives the string back; an empty slug or a slug containing `/` is always an error.",
   qtext="every string", why="The tests parse a few references; the property is about every placement of the separators.",
   files=["crates/graph-ref/src/lib.rs"], mech=[("GraphRef::from_str", "crates/graph-ref/src/lib.rs")])

# ---------------------------------------------------------------- extension, extension-catalog
EM = "grafbase_extension::manifest::v1::Manifest::"
prop("X01", "Extension permissions and kinds are read from their own manifest entry", [
    fns("predicates", "grafbase_extension", [EM + x for x in "name version into_versioned is_resolver is_authentication is_hooks network_enabled stdout_enabled stderr_enabled environment_variables_enabled".split()]
        + ["grafbase_extension::manifest::v1::Type::is_resolver", "grafbase_extension::manifest::v1::Type::is_hooks", "grafbase_extension::manifest::VersionedManifest::into_latest"]),
], statement="For every manifest, each sandbox capability (network, standard output, standard error, environment variables) is granted exactly when the manifest lists that permission, and each kind predicate answers for exactly that kind of extension.",
   qtext="every manifest", why="The tests never run the predicates over all permission sets; a capability granted by the wrong permission is a sandbox escape.",
   files=["crates/extension/src/manifest/v1.rs"], mech=[("Manifest", "crates/extension/src/manifest/v1.rs")])
prop("X02", "An extension is found only by its link, its name and a matching version", [
    fns("lookup", "extension_catalog grafbase_extension", ["extension_catalog::catalog::ExtensionCatalog::" + x for x in "find_compatible_extension get_id_by_name get_id_by_config_key push len is_empty iter iter_with_id".split()]),
    fns("identity", "grafbase_extension", ["grafbase_extension::id::Id::is_compatible_with", "<id::Id as std::fmt::Display>::fmt", "<id::Id as std::str::FromStr>::from_str"]),
    fns("manifest loading", "extension_catalog grafbase_extension", ["extension_catalog::load::load_manifest"]),
], statement="For every catalog and every schema link, the extension chosen is the first one that lists the link URL, otherwise the first whose name is equal and whose version satisfies the requirement, and its identifier is its position in the catalog; identifiers and manifests are read back from exactly the text and location they were written to.",
   qtext="every catalog and link", why="Catalogs in tests hold one or two extensions; the choice among several, and the order of the two rules, is never exercised.",
   files=["crates/extension-catalog/src/catalog.rs", "crates/extension-catalog/src/load.rs", "crates/extension/src/id.rs"], mech=[("find_compatible_extension", "crates/extension-catalog/src/catalog.rs")])

# ---------------------------------------------------------------- introspection
prop("L06", "Introspection prefers federation SDL and never loses the error", [
    fns("introspect", "grafbase_graphql_introspection", ["grafbase_graphql_introspection::introspect"]),
], statement="For every endpoint behaviour, introspection asks for the federation SDL first, falls back to standard introspection on any failure of the first, sends every caller header on both requests, and returns either the schema text (prettified only if it parses) or an error, never an empty success.",
   qtext="every sequence of HTTP responses", why="There is no test of the fallback or of any failing response.",
   files=["crates/grafbase-graphql-introspection/src/lib.rs", "crates/grafbase-graphql-introspection/src/subgraph.rs", "crates/grafbase-graphql-introspection/src/standard.rs"], mech=[("introspect", "crates/grafbase-graphql-introspection/src/lib.rs")])

# ---------------------------------------------------------------- graphql-wrapping-types
W = "graphql_wrapping_types::Wrapping::"
prop("W01", "Type wrappers are encoded, displayed and compared losslessly", [
    fns("encoding", "graphql_wrapping_types", [W + x for x in "new inner_is_required list_wrappings list list_non_null non_null without_list without_non_null is_nullable is_non_null is_list".split()]),
    fns("comparison", "graphql_wrapping_types", [W + "is_equal_or_more_lenient_than"]),
    fns("display", "graphql_wrapping_types", [W + "type_display", "<WrappingDisplay<'_> as std::fmt::Display>::fmt"]),
    fns("mutable", "graphql_wrapping_types", ["graphql_wrapping_types::mutable::MutableWrapping::" + x for x in "is_nullable is_required is_list pop_outermost_list_wrapping push_outermost_list_wrapping".split()]),
    fns("iteration", "graphql_wrapping_types", [W + "iter", "<mutable::MutableWrapping as std::cmp::PartialEq<Wrapping>>::eq"]),
], statement="For every nesting of list and non-null wrappers the encoding represents, adding then removing a wrapper gives back the same type, display prints exactly one bracket pair and one `!` per wrapper in order, and the leniency comparison holds exactly when the lists have equal depth and no position is stricter.",
   qtext="every wrapper sequence up to the representable depth", why="The tests check a dozen types; masks, shifts and positions must hold for every depth and every required flag.",
   files=["crates/graphql-wrapping-types/src/lib.rs", "crates/graphql-wrapping-types/src/mutable.rs"], mech=[("Wrapping", "crates/graphql-wrapping-types/src/lib.rs")])

# ---------------------------------------------------------------- graphql-lint
GL = {"DOC": "cynic_parser::parse_type_system_document($str)@Ok.0", "DEF": "TypeSystemDocument::definitions(DOC)[*]"}


def lint(name, select):
    return view(name, "graphql_lint", "graphql_lint::lint", alias=GL, rows=True, kinds=[], select=select)


prop("G01", "The linter reports every misnamed item with the right suggestion", [
    lint("renames", r"should be renamed to"),
], statement="For every schema that parses, the linter warns about each type, field, argument, directive, enum value and input value, in definitions and extensions, whose name differs from the case its kind requires and matches no exception, naming that item, its parent and the corrected name, and warns about no other name.",
   qtext="every parsable schema", why="One fixture per rule is tested; the case of each kind, in each position and in extensions, must hold for all names.",
   files=["crates/graphql-lint/src/lib.rs"], mech=[("case_check", "crates/graphql-lint/src/lib.rs")])
prop("G02", "The linter reports forbidden affixes and unexplained deprecations", [
    lint("affixes", r"forbidden|prefix|suffix"),
    lint("deprecations", r"deprecat"),
    fns("program", "gqlint.bin graphql_lint", ["gqlint::main"], sinks=[r"print$", r"process::exit$"], opaque=[r"graphql_lint::lint$"]),
], statement="For every schema that parses, each forbidden prefix or suffix of the kind and root type at hand is reported for the item that carries it, and each deprecation without a reason of a type, field, input field or enum value is reported; a schema that does not parse is an error and a nonzero exit.",
   qtext="every parsable schema", why="Each root type and kind has its own list, sampled once or not at all by the tests.",
   files=["crates/graphql-lint/src/lib.rs", "crates/gqlint/src/main.rs"], mech=[("visit_field", "crates/graphql-lint/src/lib.rs"), ("visit_directive_usage", "crates/graphql-lint/src/lib.rs")])

# ---------------------------------------------------------------- operation-checks
OC = "operation_checks graphql_schema_diff"
prop("C01", "Breaking changes are reported exactly when clients use what changed", [
    view("rules", OC, "operation_checks::check", rows=True, kinds=[], alias={"CHANGE": "$CheckParams.diff[*]", "SOURCE": "$CheckParams.source", "TARGET": "$CheckParams.target", "USED": "$CheckParams.field_usage"}),
    fns("input types reached", OC, ["operation_checks::check::find_used_input_types"], panics=False, alias={"SOURCE": "$CheckParams.source", "USED": "$CheckParams.field_usage"}),
    view("assuming all used", OC, "operation_checks::check_assuming_all_used", rows=True, kinds=[], alias={"CHANGE": "$CheckParams.diff[*]", "SOURCE": "$CheckParams.source", "TARGET": "$CheckParams.target", "USED": "$CheckParams.field_usage"}),
], statement="For every pair of schemas, every diff between them and every usage record, each change is reported with the severity its kind calls for exactly when the usage says a client depends on it, comparing the old item of the source schema with the new item of the target schema, and safe changes are never reported.",
   qtext="every schema pair, diff and usage record", why="Fixtures cover one example per rule; wrong arity, wrong schema or wrong usage source shows only for particular combinations.",
   files=["crates/operation-checks/src/check.rs", "crates/operation-checks/src/check/rules.rs"], mech=[("check", "crates/operation-checks/src/check.rs"), ("rules", "crates/operation-checks/src/check/rules.rs")])
OU = "aggregate_field_usage::FieldUsage"
prop("C02", "Operation usage is counted completely and by request count", [
    fns("aggregation", OC, ["operation_checks::aggregate_field_usage::aggregate_field_usage"]),
    fns("counters", OC, ["operation_checks::aggregate_field_usage::FieldUsage::set_increment", "operation_checks::aggregate_field_usage::FieldUsage::apply_request_count_threshold", f"<{OU} as std::default::Default>::default"]
        + [f"<{t} as aggregate_field_usage::UsageProvider>::{x}" for t in (OU, "aggregate_field_usage::AssumeAllUsed") for x in "field_is_used argument_is_used enum_value_is_used argument_is_left_out type_condition_is_used used_argument_ids".split()]),
    fns("operations", OC, ["operation_checks::operation::async_graphql::<impl std::convert::From<async_graphql_parser::types::ExecutableDocument> for operation::Operation>::from"]),
], statement="For every operation and schema, each selected field, passed argument, enum value, type condition and left-out argument with a default adds exactly the current request count to its own counter, through fragments and nested selections, and a threshold removes from every counter exactly the entries below it.",
   qtext="every operation, schema and request count", why="The tests aggregate a dozen operations with an increment of one; a missed fragment or counter means a breaking change is called safe.",
   files=["crates/operation-checks/src/aggregate_field_usage.rs", "crates/operation-checks/src/operation/async_graphql.rs"], mech=[("aggregate_field_usage", "crates/operation-checks/src/aggregate_field_usage.rs")])
prop("C03", "Schemas are indexed so that every lookup finds its item", [
    fns("ingestion", OC, ["operation_checks::schema::async_graphql::<impl std::convert::From<async_graphql_parser::types::ServiceDocument> for schema::Schema>::from"]),
    fns("lookups", OC, ["operation_checks::schema::Schema::" + x for x in "find_field find_argument iter_fields iter_field_arguments iter_interface_implementations".split()]
        + ["<schema::FieldArgument as std::cmp::Ord>::cmp", "<schema::SchemaField as std::cmp::Ord>::cmp"]),
    fns("wrappers", OC, ["operation_checks::schema::wrapping_types::WrappingTypes::" + x for x in "is_nonnull compare set_inner_nonnull push_list".split()] + ["<schema::wrapping_types::WrappingTypes::render::Renderer<'_> as std::fmt::Display>::fmt"]),
], statement="For every SDL document, the index holds every field, argument, default, implementation and input object of its definitions and extensions with its exact type and wrappers, sorted by the key the lookups search for, so that a lookup finds an item exactly when the schema has it.",
   qtext="every SDL document", why="Binary searches over mis-sorted or mis-keyed vectors fail only for particular name orders.",
   files=["crates/operation-checks/src/schema.rs", "crates/operation-checks/src/schema/async_graphql.rs", "crates/operation-checks/src/schema/wrapping_types.rs"], mech=[("Schema::from", "crates/operation-checks/src/schema/async_graphql.rs")])

# ---------------------------------------------------------------- graphql-schema-diff
SD = "graphql_schema_diff"
prop("D01", "A schema diff lists every difference once with its kind, path and span", [
    fns("diff", SD, ["graphql_schema_diff::diff_asts"], rows=True),
    fns("changes", SD, ["graphql_schema_diff::state::DiffState::<'_>::into_changes"], rows=True),
    fns("traversal", SD, ["graphql_schema_diff::traverse_schemas::traverse_schemas"]),
    fns("spans", SD, ["graphql_schema_diff::resolve_spans"]),
    fns("kind names", SD, ["graphql_schema_diff::change::ChangeKind::as_str", "<change::ChangeKind as std::str::FromStr>::from_str"]),
    fns("texts", SD, ["graphql_schema_diff::diff"], opaque=["diff_asts$"]),
], statement="For every pair of SDL documents, each definition, extension, field, argument, default, member, value, implementation or root type that is only in one of them or differs between them gives exactly one change of its kind at its path, its span resolved in the schema the item comes from, in sorted order; equal documents give none.",
   qtext="every pair of SDL documents", why="Fixture pairs cover some dozens of differences; the diff has to be complete for every combination of kinds, wrappers and extensions.",
   files=["crates/graphql-schema-diff/src/lib.rs", "crates/graphql-schema-diff/src/state.rs", "crates/graphql-schema-diff/src/traverse_schemas.rs", "crates/graphql-schema-diff/src/change.rs"], mech=[("diff_asts", "crates/graphql-schema-diff/src/lib.rs"), ("DiffState::into_changes", "crates/graphql-schema-diff/src/state.rs")])
prop("D02", "Schema paths print and parse back to the same path", [
    fns("parse", SD, ["graphql_schema_diff::path::parse::<impl path::Path<'a>>::parse"]),
    fns("print", SD, ["graphql_schema_diff::path::display::<impl std::fmt::Display for path::Path<'_>>::fmt"]),
], statement="For every path of a type, field, argument, directive, enum value, union member or extension, the text it prints parses back to the same path, and text that is not a path is rejected rather than read as another one.",
   qtext="every path", why="Round trips are tested for a few paths; the grammar has names, indices and four separators in many combinations.",
   files=["crates/graphql-schema-diff/src/path.rs", "crates/graphql-schema-diff/src/path/parse.rs", "crates/graphql-schema-diff/src/path/display.rs"], mech=[("Path::parse", "crates/graphql-schema-diff/src/path/parse.rs"), ("Path::fmt", "crates/graphql-schema-diff/src/path/display.rs")])
prop("D03", "Patching the source schema with a diff gives the target schema", [
    fns("patch", SD, ["graphql_schema_diff::patch::patch"], panics=False),
    fns("text", SD, ["graphql_schema_diff::patch::PatchedSchema::into_schema", "graphql_schema_diff::patch::PatchedSchema::schema"]),
], statement="For every source schema and diff, the patched schema holds every added definition, field, value, member and implementation, leaves out every removed one, shows changed types and root types as in the target and keeps everything the diff does not mention.",
   qtext="every source schema and diff", why="Patch fixtures cover a handful of changes at a time; the patch combines every kind of definition with every kind of change.",
   files=["crates/graphql-schema-diff/src/patch.rs", "crates/graphql-schema-diff/src/patch/type_definitions.rs"], mech=[("patch", "crates/graphql-schema-diff/src/patch.rs")])

# ---------------------------------------------------------------- graphql-composition
GC = "graphql_composition"
# The store that ingestion fills and composition reads: writes are the effects, reads are taken as given (K09 decides them).
GC_WRITE = [r"Subgraphs>?::(push|set|insert|append)_\w+$"]
GC_INDEX = [r"strings::\{impl#\d+\}::index$"]
GC_READ = [r"Subgraphs>?::(definition_by_name|definition_by_name_id|get_or_push_definition|new_directive_site|intern_field_type|is_composed_directive|get_linked_schema|get_linked_definition|at|iter_\w+|with_nested_key_fields)$",
           r"(^|::)Strings::intern$", r"::at$", r"strings::\{impl#\d+\}::index$"]
IS = "graphql_composition::ingest_subgraph::"
prop("K01", "Ingestion keeps every type, field, argument and value of a subgraph", [
    fns("definitions", GC, [IS + "ingest_top_level_definitions", IS + "ingest_definition_bodies"], sinks=GC_WRITE, opaque=GC_READ + [r"ingest_directives$", r"ingest_keys$"]),
    fns("values", GC, [IS + "ast_value_to_subgraph_value"], opaque=GC_READ),
], statement="For every subgraph document, ingestion records each definition and extension of every kind with its fields, arguments, defaults, members, values, interfaces, descriptions and directives under its name and subgraph, merging extensions into one definition, and nothing else.",
   qtext="every subgraph document", why="Fixtures hold a few hundred small documents; what must be kept is every construct of the language in every position, alone and in extensions.",
   files=["crates/graphql-composition/src/ingest_subgraph.rs", "crates/graphql-composition/src/ingest_subgraph/fields.rs", "crates/graphql-composition/src/ingest_subgraph/directives.rs"], mech=[("ingest_top_level_definitions", "crates/graphql-composition/src/ingest_subgraph.rs"), ("ingest_definition_bodies", "crates/graphql-composition/src/ingest_subgraph.rs")])
prop("K02", "Ingestion reads every directive with its own meaning", [
    fns("directives", GC, [IS + "directives::ingest_directives", IS + "directives::ingest_keys"], sinks=GC_WRITE, opaque=GC_READ + [r"match_directive_name$"]),
    fns("names", GC, [IS + "directives::match_name::match_directive_name"], sinks=GC_WRITE, opaque=GC_READ),
    fns("roots", GC, [IS + "schema_definitions::RootTypeMatcher::<'_>::match_name"]),
    fns("schema", GC, [IS + "schema_definitions::ingest_schema_definitions"], sinks=GC_WRITE, opaque=GC_READ + [r"match_directive_name$"]),
    fns("links", GC, [IS + "schema_definitions::link::ingest_link_directive"], sinks=GC_WRITE, opaque=GC_READ + ["parse_link_url$"]),
    fns("directive definitions", GC, [IS + "directive_definitions::ingest_directive_definitions"], sinks=GC_WRITE, opaque=GC_READ),
    fns("nested keys", GC, [IS + "nested_key_fields::ingest_nested_key_fields"], sinks=GC_WRITE + ["NestedKeyFields::insert$"], opaque=GC_INDEX),
    fns("selections", GC, ["graphql_composition::subgraphs::keys::<impl subgraphs::Subgraphs>::push_key", "graphql_composition::subgraphs::keys::<impl subgraphs::Subgraphs>::selection_set_from_str"], opaque=GC_INDEX),
    fns("link and map arguments", GC, [f"<federated_graph::directives::{t} as cynic_parser_deser::ValueDeserialize<'a>>::deserialize" for t in
        ("link::LinkDirectiveDeserialize<'a>", "link::Purpose", "link::QualifiedImport<'a>", "link::Import<'a>", "is::IsDirective<'a>", "require::RequireDirective<'a>")]),
], statement="For every subgraph document, each federation, composite-schema or extension directive is recognised under its imported, namespaced or default name and gets its documented effect with its arguments; unknown directives are kept only when they are composed or belong to an extension; links, schema definitions, root types, keys and directive definitions are read as written.",
   qtext="every subgraph document and every import form", why="Names, aliases, namespaces and versions multiply; the fixtures show only a few of the combinations per directive.",
   files=["crates/graphql-composition/src/ingest_subgraph/directives.rs", "crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs", "crates/graphql-composition/src/ingest_subgraph/schema_definitions.rs", "crates/graphql-composition/src/ingest_subgraph/schema_definitions/link.rs", "crates/graphql-composition/src/subgraphs/keys.rs"], mech=[("ingest_directives", "crates/graphql-composition/src/ingest_subgraph/directives.rs"), ("match_directive_name", "crates/graphql-composition/src/ingest_subgraph/directives/match_name.rs")])
GC_READ2 = GC_READ + [r"(DefinitionId|DirectiveSiteId|SubgraphId|FieldTuple|Key|View)\S*::(definitions|interface_implementers|fields|field_by_name|keys|is_entity|enum_values|enum_value_by_name|arguments|argument_by_name|is_part_of_key|shareable|external|inaccessible|interface_object|authenticated|deprecated|one_of|provides|requires|(r#)?override|policies|requires_scopes|cost|list_size|tags|iter_extra_directives|iter_ir_directives|iter_directive_definitions|is_resolvable|is_virtual|is_apollo_v1|is_apollo_v2)$",
                      r"Subgraphs>?::(is_defined_in|subgraphs_implementing_interface|directive_definitions)$", r"FieldType::(compose_for_\w+|display)$", r"Context::(insert_string|insert_static_str)$", r"iter_enum_values$", r"strings::\{impl#\d+\}::index$"]
GC_OUT = [r"Context::(insert|set|mark)_\w+$", r"Diagnostics::push_\w+$"]
CO = "graphql_composition::compose::"


def co(name, roots, opaque=(), sinks=(), **kw):
    return fns(name, GC, [CO + r for r in roots], sinks=GC_OUT + list(sinks), opaque=GC_READ2 + list(opaque), **kw)


CDIR = [r"collect_composed_directives$"]
CFIELDS = CDIR + [r"(^|::)for_each_field_group$", "iter_definition_groups$"]
prop("K03", "Objects and interfaces merge fields, keys and implementations of all subgraphs", [
    co("objects", ["merge_object_definitions"], opaque=CDIR, sinks=["validate_shareable_object_fields_match$", "object::compose_fields$"]),
    co("fields", ["object::compose_fields", "object::validate_shareable_object_fields_match", "fields::for_each_field_group"], sinks=["object::compose_field$"]),
    co("field", ["object::compose_field"], opaque=CDIR, sinks=["merge_field_arguments$", "override_source_has_override$", "invalid_field_sharing$", "fields::compose_output_field_types$"]),
    co("arguments", ["object::merge_field_arguments"], opaque=CDIR, sinks=["fields::compose_argument_types$"]),
    co("types", ["fields::compose_field_types", "fields::compose_argument_types"]),
    co("interfaces", ["interface::merge_interface_definitions", "entity_interface::is_entity_interface", "entity_interface::merge_entity_interface_definitions"], opaque=CFIELDS, sinks=["object::compose_fields$"]),
    fns("ir", GC, ROOTS_GC["K03"]["ir"], opaque=GC_INDEX),
], statement="For every set of subgraphs, an object or interface of several subgraphs composes to the union of its fields, each resolvable where it is defined and not overridden or external, with the merged type, arguments common to all, keys, join directives and implementations; conflicts in shareability, override, argument, type or entity rules give a fatal diagnostic.",
   qtext="every set of subgraphs", why="The rules range over any number of subgraphs and every mix of shareable, external, override, provides and key on the same field; fixtures show single instances.",
   files=["crates/graphql-composition/src/compose/object.rs", "crates/graphql-composition/src/compose/fields.rs", "crates/graphql-composition/src/compose/interface.rs", "crates/graphql-composition/src/compose/entity_interface.rs"], mech=[("compose_field", "crates/graphql-composition/src/compose/object.rs"), ("merge_entity_interface_definitions", "crates/graphql-composition/src/compose/entity_interface.rs")])
prop("K04", "Unions, enums, scalars, inputs and roots compose by their own rule", [
    co("dispatch", ["compose_subgraphs"], opaque=CFIELDS, sinks=["merge_\\w+_definitions$", "merge_root_fields$", "compose_directive_definitions$"]),
    co("kinds", ["merge_union_definitions", "scalar::merge_scalar_definitions", "enums::merge_enum_definitions", "input_object::merge_input_object_definitions"], opaque=CDIR),
    co("roots", ["roots::merge_root_fields"], opaque=CFIELDS, sinks=["object::compose_fields$"]),
    co("directive definitions", ["directive_definitions::compose_directive_definitions"]),
], statement="For every set of subgraphs, unions compose to the union of their members, input objects to the intersection of their fields, enums by how they are used, scalars and directive definitions by name and root types to one type with all root fields; definitions of one name but different kinds, missing required inputs and empty results are reported.",
   qtext="every set of subgraphs", why="Merge rules depend on how a type is used anywhere in the schema, in any number of subgraphs; a fixture shows one usage.",
   files=["crates/graphql-composition/src/compose.rs", "crates/graphql-composition/src/compose/enums.rs", "crates/graphql-composition/src/compose/input_object.rs", "crates/graphql-composition/src/compose/roots.rs", "crates/graphql-composition/src/compose/directive_definitions.rs"], mech=[("compose_subgraphs", "crates/graphql-composition/src/compose.rs"), ("merge_enum_definitions", "crates/graphql-composition/src/compose/enums.rs")])
prop("K05", "Composed directives combine those of every subgraph", [
    co("directives", ["directives::collect_composed_directives", "directives::create_join_type_from_definitions"]),
], statement="For every set of subgraphs, the composed directives of a definition combine those of all subgraphs: inaccessible, authenticated and one-of if any has them, scopes and policies merged, tags once each, the first deprecation, the highest cost, list sizes merged, composed and extension directives with their subgraph, and one join entry per subgraph and key.",
   qtext="every combination of directives over subgraphs", why="Directives are composed independently for every definition; the fixtures combine few of them.",
   files=["crates/graphql-composition/src/compose/directives.rs"], mech=[("collect_composed_directives", "crates/graphql-composition/src/compose/directives.rs")])
VA = "graphql_composition::validate::"
GC_PUSH = [r"Diagnostics::push_\w+$"]
prop("K06", "Subgraphs are validated before and after they merge", [
    fns("stages", GC, ["graphql_composition::compose", VA + "validate_pre_merge"], sinks=GC_PUSH + [r"^graphql_composition::(compose::compose_subgraphs|emit_federated_graph::emit_federated_graph)$", r"selection::validate_\w+$", r"validate::validate_\w+$", "validate_definition_names$", r"emit_ingestion_diagnostics$", "sort_pre_composition$"], opaque=GC_READ2),
    fns("rules", GC, [VA + r for r in ["validate_root_nonempty", "validate_fields", "validate_override_labels", "extension_names::validate_extension_names", "subgraph_names::validate_subgraph_names", "directives::validate",
                                       "composite_schemas::source_schema::query_root_type_inaccessible", "composite_schemas::source_schema::lookup_returns_non_nullable_type", "composite_schemas::source_schema::override_from_self", "composite_schemas::post_merge::invalid_field_sharing"]],
        sinks=GC_PUSH, opaque=GC_READ2),
    co("merging", ["validate::override_source_has_override", "validate_consistent_kind", "validate_consistent_entityness", "reserved_names::validate_definition_names"]),
    fns("selections", GC, [VA + "selection::" + r for r in ["validate_selections", "validate_keys", "validate_selection_in_provides", "validate_selection", "validate_field_selection", "argument_type_matches"]], sinks=GC_PUSH, opaque=GC_READ2),
], statement="For every set of subgraphs, validation reports every key, requires or provides selection that does not resolve, every invalid override, lookup, subgraph or extension name, reserved name, empty query root, inaccessible query root and non-shareable field in several subgraphs, and composition goes on only while nothing fatal was found.",
   qtext="every set of subgraphs", why="Each rule has its own fixture, for one shape of input; nested selections, arguments, inline fragments and wrappers are not enumerated.",
   files=["crates/graphql-composition/src/validate.rs", "crates/graphql-composition/src/validate/selection.rs", "crates/graphql-composition/src/validate/extension_names.rs", "crates/graphql-composition/src/validate/subgraph_names.rs", "crates/graphql-composition/src/validate/composite_schemas/source_schema.rs", "crates/graphql-composition/src/validate/composite_schemas/post_merge.rs", "crates/graphql-composition/src/compose/validate.rs"], mech=[("validate_pre_merge", "crates/graphql-composition/src/validate.rs"), ("validate_field_selection", "crates/graphql-composition/src/validate/selection.rs")])
GCD = "graphql_composition::diagnostics::"
prop("K07", "Composition fails exactly when a diagnostic is fatal", [
    fns("diagnostics", GC, [GCD + "Diagnostics::" + r for r in ["any_fatal", "is_empty", "iter", "iter_warnings", "iter_errors", "clone_all_from", "iter_messages", "push_fatal", "push_warning",
        "push_composite_schemas_source_schema_validation_error", "push_composite_schemas_pre_merge_validation_error", "push_composite_schemas_post_merge_validation_error"]]),
    fns("severity", GC, [GCD + r for r in ["Diagnostic::message", "Diagnostic::severity", "Severity::is_error", "Severity::is_warning", "CompositeSchemasSourceSchemaValidationErrorCode::severity", "CompositeSchemasPreMergeValidationErrorCode::severity", "CompositeSchemasPostMergeValidationErrorCode::severity"]]),
    fns("outcome", GC, ["graphql_composition::compose"], opaque=["compose_subgraphs$", "emit_federated_graph$", "validate_pre_merge$", "sort_pre_composition$"] + GC_READ2, sinks=["clone_all_from$", "emit_ingestion_diagnostics$"]),
    fns("result", GC, ["graphql_composition::result::CompositionResult::warnings_are_fatal", "graphql_composition::result::CompositionResult::into_result", "graphql_composition::result::CompositionResult::diagnostics"]),
], statement="For every set of subgraphs, composition gives a schema exactly when none of its diagnostics is fatal, every diagnostic keeps its severity and message, warnings alone never fail it unless they are asked to be fatal, and errors and warnings are listed apart.",
   qtext="every set of subgraphs and every list of diagnostics", why="Tests look at the diagnostics of single fixtures, not at the link between severities and outcome.",
   files=["crates/graphql-composition/src/lib.rs", "crates/graphql-composition/src/diagnostics.rs", "crates/graphql-composition/src/result.rs"], mech=[("compose", "crates/graphql-composition/src/lib.rs"), ("Diagnostics::any_fatal", "crates/graphql-composition/src/diagnostics.rs")])
SG = "graphql_composition::subgraphs::"
prop("K08", "The subgraph store gives back what ingestion put in", [
    fns("ingest", GC, [SG + "Subgraphs::" + r for r in ["ingest", "ingest_str", "ingest_loaded_extensions", "is_empty", "push_ingestion_diagnostic", "push_ingestion_warning", "emit_ingestion_diagnostics", "sort_pre_composition", "iter_definition_groups"]], opaque=["ingest_subgraph::ingest_subgraph$"] + GC_INDEX),
    fns("types", GC, [SG + "field_types::<impl subgraphs::Subgraphs>::intern_field_type"], opaque=GC_INDEX),
    fns("store", GC, ROOTS_GC["K08"]["store"], opaque=GC_INDEX + ["::at$", r"(^|::)Strings::intern$", r"selection_set_from_str$"]),
    fns("entry", GC, ["graphql_composition::ingest_subgraph::ingest_subgraph"], sinks=[r"ingest_subgraph::(\w+::)*(ingest|define)_\w+$"], opaque=GC_INDEX),
], statement="Everything a subgraph stores is found again by name and by owner in a fixed order that does not depend on the order in which subgraphs or definitions were added, and field types keep their name and every list and non-null wrapper.",
   qtext="every set of subgraphs, in every order", why="Order and lookup bugs show only for particular ids and orders, which fixtures do not vary.",
   files=["crates/graphql-composition/src/subgraphs.rs", "crates/graphql-composition/src/subgraphs/field_types.rs"], mech=[("sort_pre_composition", "crates/graphql-composition/src/subgraphs.rs"), ("intern_field_type", "crates/graphql-composition/src/subgraphs/field_types.rs")])
EM = "graphql_composition::emit_federated_graph::"
GC_EMIT = [r"FederatedGraph>?::push_\w+$", r"Context::(insert_string|insert_str|insert_value\w*|lookup_str\w*|convert_extension_id|insert_field_type)$"]
prop("K09", "The federated graph has everything composition decided", [
    fns("graph", GC, [EM + "emit_federated_graph"], sinks=[EM + r"(emit_\w+|directive\w*::\w+|federation_builtins::\w+)$", r"emit_\w+$"], opaque=GC_EMIT[1:]),
    fns("types", GC, [EM + r for r in ["emit_directives_and_implements_interface", "emit_interface_after_directives", "emit_union_members_after_objects", "emit_input_value_definitions", "emit_subgraphs", "join_graph_enum_variant_name"]], opaque=GC_EMIT[1:] + [r"transform_\w+$", "attach_selection$"]),
    fns("fields", GC, [EM + "emit_fields", EM + "attach_selection", EM + "emit_fields::for_each_field_group"], opaque=GC_EMIT[1:] + [r"transform_\w+$", r"attach_selection$", r"attach_selection_set\w*$"]),
    fns("directives", GC, [EM + "directive::" + r for r in ["transform_arbitray_type_directives", "transform_input_value_directives", "transform_enum_value_directives", "transform_type_directives", "transform_field_directives", "transform_common_directive", "transform_join_union_member_directive", "transform_list_size_directive",
        "transform_join_type_directive", "transform_join_field_directive", "emit_composed_directives_on_schema_definition"]], opaque=GC_EMIT[1:]),
    fns("definitions", GC, [EM + "directive::" + r for r in ["emit_list_size_directive_definition", "emit_cost_directive_definition", "emit_composite_spec_directive_definitions"]] + [EM + r for r in ["directive_definitions::emit_directive_definitions", "emit_extensions::emit_extensions", "emit_linked_schemas::emit_linked_schemas", "federation_builtins::emit_federation_builtins"]], opaque=GC_EMIT[1:] + [r"transform_\w+$"]),
    fns("values", GC, [EM + "context::Context::<'a>::insert_value_with_type", "graphql_composition::emit_federated_graph::field_types_map::<impl emit_federated_graph::context::Context<'_>>::insert_field_type"], opaque=[r"Context::(insert_string|insert_str)$"]),
    fns("context", GC, ROOTS_GC["K09"]["context"], opaque=GC_INDEX),
], statement="For every composed schema, the emitted graph has every definition, field, argument, value, implementation, selection, directive, subgraph and extension of the composition with the same names and types, and defines exactly the federation directives and scalars that it uses.",
   qtext="every composed schema", why="Emission is checked through fixtures that use a few directives at a time.",
   files=["crates/graphql-composition/src/emit_federated_graph.rs", "crates/graphql-composition/src/emit_federated_graph/directive.rs", "crates/graphql-composition/src/emit_federated_graph/federation_builtins.rs", "crates/graphql-composition/src/emit_federated_graph/context.rs"], mech=[("emit_federated_graph", "crates/graphql-composition/src/emit_federated_graph.rs"), ("transform_common_directive", "crates/graphql-composition/src/emit_federated_graph/directive.rs")])
FS = "graphql_composition::federated_graph::from_sdl::"
prop("K10", "A federated schema is read back as the graph it was written from", [
    fns("graph", GC, [FS + "from_sdl"], sinks=[r"ingest_\w+$", r"insert_builtin_scalars$"], opaque=[r"parse_type_system_document$"]),
    fns("ingest", GC, [FS + r for r in ["ingest_schema_and_directive_definitions", "ingest_fields", "ingest_schema_definition", "ingest_interface_interfaces", "ingest_object_interfaces", "ingest_directives_after_graph", "ingest_definitions", "ingest_enum_definition", "ingest_interface_fields", "ingest_field", "ingest_union_members", "ingest_input_object", "ingest_object_fields", "ingest_join_graph_enum", "ingest_extension_link_enum"]],
        sinks=[r"from_sdl::ingest_\w+$", "ingest_input_value_definition$"], opaque=[r"collect_\w+_directives$", r"State::(insert_string|insert_value|field_type|field_type_from_str|get_definition_name)$", r"convert_input_value_definition$", r"parse_selection_set$", "attach_selection_set$"]),
    fns("directives", GC, [FS + "directive::" + r for r in ["collect_definition_directives", "collect_field_directives", "collect_input_value_directives", "collect_enum_value_directives", "parse_join_implements", "parse_join_union_member", "parse_join_type_directive", "parse_join_field_directive", "parse_list_size_directive", "parse_extension_link", "parse_extension_directive", "parse_directive_arguments"]],
        opaque=[r"State::(insert_string|insert_value|field_type|field_type_from_str|get_definition_name)$", r"parse_selection_set$", r"attach_\w+$"]),
    fns("types", GC, [FS + "State::<'a>::field_type_from_str", FS + "State::<'a>::field_type_from_name_and_wrapping", FS + "State::<'a>::insert_value", FS + "State::<'a>::get_definition_name", FS + "directive_definition::ingest_directive_definition", FS + "input_value_definition::convert_input_value_definition", FS + "attach_selection_field", FS + "attach_inline_fragment", FS + "attach_selection_set_rec", FS + "split_namespace_name",
        "<cynic_parser::ConstValue<'_> as federated_graph::from_sdl::value::IntoJson>::into_json"], opaque=[r"State::insert_string$"]),
    fns("deser", GC, ROOTS_GC["K10"]["deser"], opaque=GC_INDEX),
    fns("parts", GC, ROOTS_GC["K10"]["graph"], opaque=GC_INDEX + [r"from_sdl::from_sdl$", r"State::insert_string$"]),
], statement="For every federated schema document, reading gives a graph with each definition, field, wrapped type, argument, default, value, directive, selection, subgraph and extension it spells, and a document that refers to something undefined or malformed gives an error, not a graph.",
   qtext="every federated schema document", why="Round trips run on generated fixtures only; the reader accepts any document.",
   files=["crates/graphql-composition/src/federated_graph/from_sdl.rs", "crates/graphql-composition/src/federated_graph/from_sdl/directive.rs", "crates/graphql-composition/src/federated_graph/from_sdl/input_value_definition.rs"], mech=[("from_sdl", "crates/graphql-composition/src/federated_graph/from_sdl.rs"), ("parse_join_field_directive", "crates/graphql-composition/src/federated_graph/from_sdl/directive.rs")])
RS = "graphql_composition::federated_graph::render_sdl::"
RO = [r"FederatedGraph>?::(at|str|view|definition_name|enum_value_range)$"]
WD = [r"(^|::)write_directive$"]
WA = [r"write_(public_directives|field_arguments|enum_variant|description)$"]
prop("K11", "The federated SDL shows the whole graph", [
    fns("document", GC, [RS + "render_federated_sdl::render_federated_sdl"], opaque=WD + RO),
    fns("schema", GC, [RS + "render_federated_sdl::schema_definition::display_schema_definition"], opaque=RO),
    fns("directives", GC, [RS + "directive::write_directive", RS + "directive_definition::display_directive_definitions", "<federated_graph::directive_definitions::DirectiveLocations as std::fmt::Display>::fmt"], opaque=RO),
    fns("values", GC, ["<federated_graph::render_sdl::display_utils::" + r + " as std::fmt::Display>::fmt" for r in ["Description<'_>", "ValueDisplay<'_>", "Arguments<'_>", "BareSelectionSetDisplay<'_>", "SelectionSetDisplay<'_>", "InputValueDefinitionSetDisplay<'_>", "BareInputValueDefinitionSetDisplay<'_>", "DisplayableAnyValue<'_>"]] + [RS + "display_utils::display_graphql_string_literal", RS + "display_utils::render_field_type"], opaque=RO),
    fns("parts", GC, ROOTS_GC["K11"]["parts"], opaque=GC_INDEX),
], statement="For every federated graph, the printed federated schema contains every definition with its description, fields, arguments, defaults, types, values and directives, escaped so that it parses, and nothing that is not in the graph.",
   qtext="every federated graph", why="Snapshots cover fixed graphs; strings with quotes, empty lists, nested values and every directive argument matter.",
   files=["crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs", "crates/graphql-composition/src/federated_graph/render_sdl/directive.rs", "crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs"], mech=[("render_federated_sdl", "crates/graphql-composition/src/federated_graph/render_sdl/render_federated_sdl.rs"), ("write_directive", "crates/graphql-composition/src/federated_graph/render_sdl/directive.rs")])
prop("K12", "The API SDL shows what is accessible and nothing else", [
    fns("document", GC, ["<federated_graph::render_sdl::render_api_sdl::Renderer<'_> as std::fmt::Display>::fmt"], opaque=WD + WA + RO + [r"is_inaccessible$"]),
    fns("parts", GC, [RS + "render_api_sdl::" + r for r in ["write_public_directives", "write_enum_variant", "write_field_arguments"]], opaque=WD + RO + [r"is_inaccessible$"]),
    fns("visibility", GC, [RS + "render_api_sdl::visibility::is_inaccessible", RS + "render_api_sdl::public_directives_filter"], opaque=RO),
], statement="For every federated graph, the API schema leaves out each inaccessible or introspection item and each argument filled by a requirement, shows no federation directive, and keeps every other definition, field, argument, value and public directive with its type.",
   qtext="every federated graph", why="Exposing an inaccessible item is a leak; snapshots show it only for the places they happen to mark.",
   files=["crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs"], mech=[("render_api_sdl", "crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs")])

# ---------------------------------------------------------------- gateway-config
import serde
CF = "gateway_config"
prop("P01", "Configuration is loaded from the right file with variables expanded", [
    fns("load", CF, ["gateway_config::Loader::load"], opaque=["expand_dynamic_strings$", "Config::with_absolute_paths$"]),
    fns("expand", CF, ["gateway_config::Loader::load::expand_dynamic_strings"]),
    fns("paths", CF, ["gateway_config::Loader::with_current_dir", "gateway_config::Config::loader", "gateway_config::Config::load", "gateway_config::Config::parent_dir_path", "gateway_config::Config::with_absolute_paths"], opaque=["Loader::load$"]),
], statement="For every configuration file and environment, loading reads the given path or else the default file of the directory, expands each environment reference in every string value, reports an undefined variable or a malformed file as an error and not as a partial configuration, and gives no configuration only when no path was given and there is no default file. Relative paths inside the file are resolved against the directory of the file.",
   qtext="every configuration file and environment", why="Tests load a few literal files; the guarantee is about every key, nested table, array and environment.",
   files=['crates/gateway-config/src/lib.rs'], mech=[('Loader::load', 'crates/gateway-config/src/lib.rs'), ('with_absolute_paths', 'crates/gateway-config/src/lib.rs')])
prop("P02", "Every configuration key sets its own setting", [
    dict(name="keys", crates=[CF], rule=serde.schema),
], statement="For every configuration file, each key sets exactly the setting of that name with its type and alias, a missing key takes its default or is reported when it is required, and an unknown key or variant is rejected in each section that is closed.",
   qtext="every configuration file", why="A few hundred keys in about seventy sections; the tests set some of them, and a key bound to another setting, or a lost default, deserializes without an error.",
   files=['crates/gateway-config/src/lib.rs', 'crates/gateway-config/src/telemetry/mod.rs', 'crates/gateway-config/src/traffic_shaping.rs', 'crates/gateway-config/src/authentication.rs'], mech=[('Config', 'crates/gateway-config/src/lib.rs')])
TC = "gateway_config::telemetry::TelemetryConfig::"
LO = "gateway_config::telemetry::exporters::otlp::LayeredOtlExporterConfig::"
prop("P03", "Telemetry exporters layer the specific settings over the global ones", [
    fns("telemetry", CF, [TC + x for x in "tracing_stdout_config tracing_otlp_config tracing_exporters_enabled metrics_stdout_config metrics_otlp_config logs_stdout_config logs_otlp_config logs_exporters_enabled grafbase_otlp_config".split()]),
    fns("otlp", CF, [LO + x for x in "is_enabled timeout batch_export protocol".split()] + ["gateway_config::telemetry::exporters::otlp::<impl std::convert::TryFrom<telemetry::exporters::otlp::OtlpExporterTlsConfig> for tonic::transport::ClientTlsConfig>::try_from"]),
    fns("headers", CF, ["gateway_config::telemetry::exporters::otlp::headers::Headers::" + x for x in "into_inner inner into_map len is_empty".split()] + ["<telemetry::exporters::otlp::headers::HeaderMapVisitor as serde::de::Visitor<'de>>::visit_map", "<telemetry::exporters::otlp::headers::Headers as std::iter::IntoIterator>::into_iter"]),
], statement="For every telemetry configuration, a traces, metrics or logs exporter is enabled and takes each of its timeout, batch, protocol, header and TLS settings from its own section when that section sets it, otherwise from the global section, otherwise from the default; no signal takes a setting of another signal.",
   qtext="every telemetry configuration", why="Each of some ten settings can be set at two levels for three signals; tests fix a few combinations.",
   files=['crates/gateway-config/src/telemetry/mod.rs', 'crates/gateway-config/src/telemetry/exporters/otlp/layered.rs', 'crates/gateway-config/src/telemetry/exporters/otlp/headers.rs'], mech=[('tracing_otlp_config', 'crates/gateway-config/src/telemetry/mod.rs')])
GCF = "gateway_config::"
prop("P04", "Configuration values are parsed and checked", [
    fns("levels and methods", CF, [GCF + "log_level::LogLevel::as_str", "<log_level::LogLevel as std::fmt::Display>::fmt", "<log_level::LogLevel as std::str::FromStr>::from_str", "<cors::HttpMethod as std::str::FromStr>::from_str", "<cors::HttpMethod as std::convert::TryFrom<&str>>::try_from",
        "<cors::HttpMethod as std::convert::From<http::Method>>::from", GCF + "cors::<impl std::convert::From<cors::HttpMethod> for http::Method>::from"]),
    fns("sizes and durations", CF, ["<size_ext::deserialize_positive_size::SizeVisitor as serde::de::Visitor<'_>>::" + x for x in "visit_str visit_u64 visit_i64".split()] + [GCF + "size_ext::deserialize_positive_size", GCF + "rate_limit::deserialize_duration_internal", GCF + "telemetry::exporters::tracing::deserialize_sampling"]),
    fns("extensions", CF, [GCF + "extensions::ExtensionConfig::" + x for x in "version networking stdout stderr environment_variables max_pool_size path config".split()]),
    fns("predicates", CF, [GCF + x for x in ["AccessLogsConfig::lossy_log", "SubgraphConfig::has_schema_override", "MtlsConfig::requires_dedicated_connection", "rate_limit::RateLimitStorage::is_redis", "message_signatures::MessageSigningKey::id"]] + ["<message_signatures::MessageSigningAlgorithm as std::fmt::Display>::fmt"]),
    fns("visitors", CF, ROOTS_GC["P04"]["values"]),
], statement="For every value of a configuration setting, a log level, HTTP method, size, duration or sampling rate is read as the value it spells or rejected when it is malformed, zero or out of range, and the derived questions (extension permissions, storage kind, TLS needs) answer from the setting itself.",
   qtext="every value of a setting", why="Tests give one or two values per setting; bounds, case and units matter for all others.",
   files=['crates/gateway-config/src/log_level.rs', 'crates/gateway-config/src/cors.rs', 'crates/gateway-config/src/size_ext.rs', 'crates/gateway-config/src/rate_limit.rs', 'crates/gateway-config/src/extensions.rs'], mech=[('deserialize_positive_size', 'crates/gateway-config/src/size_ext.rs')])

# ---------------------------------------------------------------- telemetry
TE = "grafbase_telemetry"
ME = "grafbase_telemetry::metrics::engine::EngineMetrics::"
MR = "grafbase_telemetry::metrics::request::RequestMetrics::"
METER = [r"(Histogram|Counter|UpDownCounter)(::<.*>)?::(record|add)$"]
prop("T01", "Metrics are recorded under their own name with their own labels", [
    fns("engine", TE, [ME + x for x in """build record_query_or_mutation_duration record_subgraph_request_duration record_subgraph_retry record_subgraph_request_size record_subgraph_response_size increment_subgraph_inflight_requests decrement_subgraph_inflight_requests
        record_subgraph_cache_hit record_subgraph_cache_partial_hit record_subgraph_cache_miss record_operation_cache_hit record_operation_cache_miss record_failed_preparation_duration record_successful_preparation_duration record_batch_size record_request_body_size increment_graphql_errors""".split()], sinks=METER),
    fns("http", TE, [MR + x for x in "build record_http_duration increment_connected_clients decrement_connected_clients record_response_body_size".split()], sinks=METER),
    fns("client", TE, ["grafbase_telemetry::grafbase_client::Client::maybe_new", "grafbase_telemetry::grafbase_client::Client::extract_from"]),
], statement="For every request, subgraph call, cache lookup and operation, the gateway's metrics record exactly the measured value on the instrument of that name, with the labels of that event and no label of another one; an in-flight counter goes up by one and down by one.",
   qtext="every recorded event", why="No test reads the instruments; a swapped label or counter is seen only on a dashboard.",
   files=['crates/telemetry/src/metrics/engine.rs', 'crates/telemetry/src/metrics/request.rs', 'crates/telemetry/src/grafbase_client.rs'], mech=[('record_subgraph_request_duration', 'crates/telemetry/src/metrics/engine.rs')])
TG = "grafbase_telemetry::graphql::"
prop("T02", "Response statuses keep their class", [
    fns("status", TE, [TG + x for x in "OperationType::as_str OperationType::is_mutation OperationType::is_query OperationType::is_subscription OperationName::original GraphqlResponseStatus::as_str GraphqlResponseStatus::is_success GraphqlResponseStatus::is_request_error GraphqlResponseStatus::union SubgraphResponseStatus::as_str GraphqlExecutionTelemetry::<E>::errors_count".split()]
        + ["<graphql::OperationType as std::fmt::Display>::fmt", "<graphql::OperationName as std::fmt::Display>::fmt", "<graphql::GraphqlExecutionTelemetry<ErrorCode> as std::default::Default>::default"]),
], statement="For every GraphQL response, the status used in telemetry is the class of that response (success, field error with its count, request error or refused), merging the statuses of two responses keeps the worst class and adds up field errors, and each class and operation type has its own label.",
   qtext="every response and merge of responses", why="Merging is over every pair of classes; tests touch none of it.",
   files=['crates/telemetry/src/graphql.rs'], mech=[('union', 'crates/telemetry/src/graphql.rs')])
SP = "grafbase_telemetry::span::"
prop("T03", "Spans record the outcome of what they cover", [
    fns("spans", TE, [SP + x for x in "cache::CacheSpan::new cache::CacheSpan::into_span http_request::HttpRequestSpanBuilder::<'a>::with_ray_id http_request::HttpRequestSpanBuilder::<'a>::build resolver::ResolverInvocationSpan::<'a>::new resolver::ResolverInvocationSpan::<'a>::into_span subgraph::SubgraphRequestSpanBuilder::<'_>::build subgraph::SubgraphHttpRequestSpan::new".split()]
        + ["<span::graphql::GraphqlOperationSpan as std::default::Default>::default", SP + "resolver::<impl span::ResolverInvocationRecorderSpanExt for tracing::Span>::record_failure"], sinks=[r"Span::record$"]),
    fns("request", TE, [SP + "http_request::HttpRequestSpanBuilder::<'a>::from_http"], rows="fields"),
    fns("records", TE, [SP + x.replace("<impl_span>", "<impl span::CacheRecorderSpanExt for tracing::Span>") for x in """cache::<impl span::CacheRecorderSpanExt for tracing::Span>::record_status cache::<impl span::CacheRecorderSpanExt for tracing::Span>::record_error graphql::GraphqlOperationSpan::record_operation
        graphql::GraphqlOperationSpan::record_response graphql::record_graphql_response_status http_request::HttpRequestSpan::record_response http_request::HttpRequestSpan::record_graphql_execution_telemetry http_request::HttpRequestSpan::record_internal_server_error
        http_request::HttpRequestSpan::record_status_code subgraph::SubgraphHttpRequestSpan::record_http_status_code subgraph::SubgraphHttpRequestSpan::record_resend_count subgraph::SubgraphHttpRequestSpan::set_as_http_error subgraph::SubgraphGraphqlRequestSpan::record_graphql_response_status""".replace("<impl span::CacheRecorderSpanExt for tracing::Span>", "<impl_span>").split()], sinks=[r"Span::record$"]),
], statement="For every HTTP request, GraphQL operation, subgraph request and cache access, its span records the status, operation, error count and error text of that very outcome under the attribute defined for it, and marks as failed exactly the failed ones.",
   qtext="every request and outcome", why="Spans are exercised only end to end, by collectors that this tree cannot run.",
   files=['crates/telemetry/src/span/http_request.rs', 'crates/telemetry/src/span/graphql.rs', 'crates/telemetry/src/span/subgraph.rs', 'crates/telemetry/src/span/cache.rs'], mech=[('record_graphql_response_status', 'crates/telemetry/src/span/graphql.rs')])
LB = "otel::logs::bridge::LogRecordVisitor"
prop("T04", "Log events are exported with their fields within the limits", [
    fns("event", TE, ["<otel::logs::bridge::OtelLogsLayer as tracing_subscriber::Layer<S>>::on_event", "grafbase_telemetry::otel::logs::bridge::extract_trace_context"], sinks=[r"LogRecord::(set_\w+|add_attribute)$", r"Logger::emit$"]),
    fns("fields", TE, [f"<{LB} as tracing::field::Visit>::record_{x}" for x in "debug str bool i64 u64 f64 i128 u128 bytes error".split()] + [f"grafbase_telemetry::{LB}::{x}" for x in "new add_field truncate_string".split()]),
], statement="For every log event, the exported record has the event's level, target, message, source location and trace context and each of its fields with its value and type, up to the field count and size limits; longer text is cut at a character and marked as cut, and no event makes the exporter fail.",
   qtext="every log event", why="Values are arbitrary text of any length; the tests log short ASCII strings.",
   files=['crates/telemetry/src/otel/logs/bridge.rs'], mech=[('on_event', 'crates/telemetry/src/otel/logs/bridge.rs')])
OT = "grafbase_telemetry::otel::"
prop("T05", "Exporters are built from their own configuration", [
    fns("exporters", "grafbase_telemetry gateway_config", [OT + x for x in "exporter::build_metadata exporter::build_tls_config layer::build logs::build_logs_provider metrics::build_meter_provider metrics::attach_reader metrics::agg_for_latency_histogram traces::build_trace_provider traces::setup_exporters traces::build_batched_span_processor".split()], opaque=[r"TelemetryConfig::\w+_(config|enabled)$", r"LayeredOtlExporterConfig::\w+$", r"(build_metadata|build_tls_config|setup_exporters|attach_reader|build_batched_span_processor|build_\w+_provider)$"]),
], statement="For every telemetry configuration, each enabled exporter is built with the endpoint, headers, TLS, timeout, batching, interval, limits and sampling set for it, its default endpoint path is that of its own signal, and a disabled exporter is not built.",
   qtext="every telemetry configuration", why="Building an exporter has no observable result that a unit test could read back.",
   files=['crates/telemetry/src/otel/traces.rs', 'crates/telemetry/src/otel/metrics.rs', 'crates/telemetry/src/otel/logs.rs', 'crates/telemetry/src/otel/exporter.rs'], mech=[('build_trace_provider', 'crates/telemetry/src/otel/traces.rs')])

# ---------------------------------------------------------------- grafbase-sdk
SDK = _json.load(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "roots_sdk.json")))
_NOT = r"(?!.*::(eq|ne|cmp|partial_cmp|lt|le|gt|ge|fmt|clone|hash|default)$)"
WIT = [r"^grafbase_sdk::wit::" + _NOT, r"^wit::" + _NOT]


def sdk(pid, view, **kw):
    return fns(view, "grafbase_sdk", SDK[pid][view], **dict(dict(sinks=WIT, rows="fields"), **kw))


_S = "crates/grafbase-sdk/src/"
for _p, _t, _s, _q, _w, _f, _m in [
    ("E01", "Extensions' HTTP requests are sent as built",
     "For every HTTP request an extension builds, the host receives exactly the method, URL, headers and body that were set, a JSON or form body comes with its own content type, and the response and every failure are handed back as the host gave them. A batch keeps its requests in order.",
     "every request", "Tests of the SDK cannot call the host, so no test sees what is sent.", ["host_io/http.rs"], ("HttpRequestBuilder", "host_io/http.rs")),
    ("E02", "Extensions' header maps do what their operation says",
     "For every header map of the host, getting, listing, setting, appending and removing a header acts on exactly the name and value bytes given, in any of the accepted representations, and reports a failure of the host instead of hiding it.",
     "every name, value and representation", "Only the host can run these calls; no test does.", ["types/headers.rs"], ("Headers", "types/headers.rs")),
    ("E03", "Extensions' errors and responses reach the gateway unchanged",
     "For every error, error response and response an extension returns, the gateway receives its status, every message, extension, header and the data encoded as declared (JSON or CBOR). Data that cannot be encoded is reported as an error, and each ready-made error has the HTTP status of its name.",
     "every error and response", "Conversions are generic over what the extension returns; tests do not enumerate them.", ["types/error.rs", "types/error_response.rs", "types/response.rs", "types/data.rs"], ("ErrorResponse", "types/error_response.rs")),
    ("E04", "Extensions see the subgraph schema as it is",
     "For every subgraph schema given to an extension, every type, field, argument, input field, enum value, union member, directive and type wrapper that the extension can read is the one of that schema with its own name, kind and directives, in order.",
     "every schema", "Views are thin, so each accessor is a place where a neighbouring field can be returned; no test reads all of them.", ["types/schema.rs"], ("SubgraphSchema", "types/schema.rs")),
    ("E05", "Extensions see the operation as it is",
     "For every operation, the fields, aliases, arguments, definitions and nested selections, and the query elements, response items and directive sites an extension reads are those of that operation, in order, and each item's identifier leads back to that very item.",
     "every operation", "The encoding is positional (ranges into shared tables); tests use one or two elements.", ["types/selection_set.rs", "types/elements/query.rs", "types/elements/response.rs", "types/directive_site.rs"], ("QueryElements", "types/elements/query.rs")),
    ("E06", "Messages to and from Kafka and NATS are handed over intact",
     "For every message an extension publishes to or receives from Kafka or NATS, topic, key, headers and payload are the ones given, each option of a producer, consumer, stream or authentication reaches the broker client as set, and the end of a subscription is told apart from a failure.",
     "every message and option", "There is no broker in the tests of the SDK.", ["host_io/kafka.rs", "host_io/kafka/consumer.rs", "host_io/kafka/producer.rs", "host_io/nats.rs"], ("KafkaConsumerConfig", "host_io/kafka/consumer.rs")),
    ("E07", "Postgres values are bound and read as what they are",
     "For every value bound to a query, the database receives that value with the type it stands for, arrays refer to their own elements in order, and a value that does not fit the column's type is rejected rather than changed. Rows, columns and errors are returned as the database gave them, and a transaction neither committed nor rolled back is rolled back.",
     "every value and column type", "Values are open-ended (ranges, nesting, text); there is no database in the tests.", ["host_io/postgres/types.rs", "host_io/postgres/query.rs", "host_io/postgres/pool.rs", "host_io/postgres/connection.rs"], ("from_json_input", "host_io/postgres/types.rs")),
    ("E08", "Host services are used as asked: events, logs, cache, gRPC",
     "For every gateway event, the extension sees the event's own data; every log record above the level is written with its level, message and fields; a cached value is stored under its own key with its own lifetime, computed only when absent, and given up when computing it fails; and gRPC calls pass message, metadata, timeout and status unchanged.",
     "every event, record, key and call", "All of these are host calls; no test of the SDK reaches the host.", ["host_io/event_queue.rs", "host_io/logger.rs", "host_io/logger/file.rs", "host_io/logger/system.rs", "host_io/cache.rs", "host_io/grpc.rs"], ("try_get_or_insert", "host_io/cache.rs")),
    ("E09", "Each gateway call reaches the matching extension function",
     "For every call the gateway makes into an extension, the extension function of that purpose is called with exactly the data of the call and its result is returned in the form that call expects; a call of a kind the extension does not implement is answered with an error saying so. Subscriptions deliver their items in order until the end and are dropped when asked.",
     "every call", "The entry points exist only in the compiled component; tests call none of them.", ["component/mod.rs", "component/authentication.rs", "component/authorization.rs", "component/contracts.rs", "component/hooks.rs", "component/resolver.rs", "component/extension.rs", "extension/resolver.rs"], ("AnyExtension", "component/extension.rs")),
    ("E10", "Authorisation decisions, tokens and contexts are passed on as made",
     "For every request, the token, authorization decisions (with which elements are denied and why), header changes, state and hook outputs an extension returns reach the gateway as returned, and the contexts it is given are those of that request.",
     "every decision and context", "Decisions are encoded compactly by index; a denied element attached to another error is not seen by any test.", ["types/authorization.rs", "types/authentication.rs", "types/token.rs", "types/hooks.rs", "types/context.rs", "types/contract.rs", "types/resolver.rs", "types/configuration.rs"], ("AuthorizationDecisions", "types/authorization.rs")),
]:
    prop(_p, _t, [sdk(_p, v) for v in SDK[_p]], statement=_s, qtext=_q, why=_w, files=[_S + x for x in _f], mech=[(_m[0], _S + _m[1])])
prop("E11", "A jq selection is compiled once and run on the data it is given", [
    fns("selection", "grafbase_sdk", ["<jq_selection::JqSelection as std::default::Default>::default", "grafbase_sdk::jq_selection::JqSelection::new", "grafbase_sdk::jq_selection::JqSelection::select"], sinks=[r"VacantEntry::insert$", r"Entry::\w*insert\w*$"]),
], statement="For every sequence of selections and data, a selection gives exactly what its own jq program yields for the data of that call, in order, with every failure of an element reported in its place, and a program that is not valid jq is reported as such. A selection that was compiled before is found again instead of being compiled and stored a second time.",
   qtext="every sequence of selections", why="No test of the workspace runs a selection; whether the cache is hit is not observable in the result.",
   files=[_S + "jq_selection.rs"], mech=[("JqSelection::select", _S + "jq_selection.rs")])


# ---------------------------------------------------------------- engine: field selection maps
FM = "engine_field_selection_map::parser::"
FMP = "parse selected_value selected_value_entry selected_value_entry_with_path selected_object_value selected_object_field selected_list_value path path_segment name".split()
prop("F01", "Field selection maps are parsed and printed by their grammar", [
    fns("grammar", "engine_field_selection_map", [FM + x for x in FMP], opaque=[FM + x + "$" for x in FMP[1:]], steps=[r"Parser::parse_next$"], kinds=["sink", "store"]),
    fns("printed", "engine_field_selection_map", [f"<model::{t} as std::fmt::Display>::fmt" for t in "SelectedValue<'_> SelectedValueEntry<'_> PathSegment<'_> Path<'_> SelectedObjectValue<'_> SelectedObjectField<'_> SelectedListValue<'_>".split()]),
    fns("entry", "engine_field_selection_map", ["<model::SelectedValue<'a> as std::convert::TryFrom<&'a str>>::try_from"], opaque=[FM + "parse$"]),
], statement="For every text, a field selection map is accepted exactly when it follows the grammar of the composite-schemas specification (alternatives, paths with type conditions, object and list selections), and the parsed value has the parts of the text in order. Printing a parsed value gives a text that stands for the same value.",
   qtext="every text and every nesting of selections", why="The grammar is recursive with optional parts at every level; tests parse a few dozen texts.",
   files=["crates/engine/field-selection-map/src/parser.rs", "crates/engine/field-selection-map/src/model.rs"], mech=[("selected_value_entry", "crates/engine/field-selection-map/src/parser.rs")])

prop("P05", "A setting that is left out takes its documented default", [
    fns("defaults", CF, ROOTS_GC["P05"]["defaults"]),
], statement="For every section of the configuration, a setting that the file leaves out has the default value that its documentation gives, in the defaults of the section itself and wherever a larger section is left out as a whole.",
   qtext="every set of settings left out", why="Each section has its own defaults; the tests read back some of them, in a few combinations.",
   files=["crates/gateway-config/src/lib.rs", "crates/gateway-config/src/telemetry/mod.rs", "crates/gateway-config/src/entity_caching.rs"], mech=[("Default for Config", "crates/gateway-config/src/lib.rs")])
prop("T06", "Trace context is sent in valid headers, once each", [
    fns("inject", TE, ROOTS_GC["T06"]["inject"]),
    fns("meter", TE, ROOTS_GC["T06"]["meter"]),
], statement="For every trace context, each propagation header with a valid name and value is set on the request and replaces any earlier value of that header, and one that is not valid is left out without failing the request.",
   qtext="every trace context and request", why="Contexts come from other services; tests send one well-formed context.",
   files=["crates/telemetry/src/http.rs", "crates/telemetry/src/metrics/mod.rs"], mech=[("HeaderInjector", "crates/telemetry/src/http.rs")])
prop("H01", "Each gateway hook reaches the component's hook with its own arguments", [
    fns("hooks", "grafbase_hooks", ROOTS_GC["H01"]["hooks"]),
], statement="For every hook the gateway calls, a hooks component receives that hook with the context, headers and arguments of the call in their order and the gateway gets the component's answer unchanged; edge and node arguments are decoded from exactly the value sent.",
   qtext="every hook and every argument", why="A component runs inside the gateway only; no unit test exercises the exported functions.",
   files=["crates/grafbase-hooks/src/hooks.rs", "crates/grafbase-hooks/src/host_io/http.rs"], mech=[("impl wit::Guest for Component", "crates/grafbase-hooks/src/hooks.rs")])
prop("I01", "Identifier sets, ranges and maps hold exactly what was put in", [
    fns(v, "engine_id_newtypes", r) for v, r in ROOTS_GC["I01"].items()
], statement="For every sequence of operations, a bit set holds exactly the identifiers set and combines with another as sets do, a range of identifiers has exactly those from its start to before its end in order, and a map from identifiers gives all values of that identifier and no others.",
   qtext="every sequence of operations on identifiers", why="The engine plans with these on sizes that tests do not vary.",
   files=["crates/engine/id-newtypes/src/bitset.rs", "crates/engine/id-newtypes/src/range.rs", "crates/engine/id-newtypes/src/many.rs", "crates/engine/id-newtypes/src/one.rs"], mech=[("IdRange::from_slice", "crates/engine/id-newtypes/src/range.rs"), ("BitSet", "crates/engine/id-newtypes/src/bitset.rs")])
prop("I02", "Walking visits every item once, in order, with the context it was given", [
    fns("walk", "engine_walker", ROOTS_GC["I02"]["walk"]),
], statement="For every collection of identifiers, walking it gives one walker per item in the same order from either end, each made with the context given, and two walks compare as the sequences of their items do.",
   qtext="every collection and context", why="All of the engine's schema access goes through these few adapters, for every item type.",
   files=["crates/engine/walker/src/iter.rs", "crates/engine/walker/src/lib.rs"], mech=[("WalkIterator", "crates/engine/walker/src/iter.rs")])
