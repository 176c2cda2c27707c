"""Properties of grafbase that this family of technique cannot decide here, with the reason."""
UNBUILT = ("The crate that provides it does not compile in this sandbox (its dependencies are not in the offline cache), so there is no type-checked program to analyse and no change to it could be built or shown.")


def na(id, title, statement, qtext, why, files, reason=UNBUILT, over=("inputs",)):
    return dict(id=id, title=title, statement=statement, qtext=qtext, why=why, files=files, mech=[(files[0].split("/")[1], files[0])], reason=reason, over=list(over))


NA = [
    na("N01", "A response has the value the supergraph semantics assigns to the operation", "For every valid operation and subgraph data, the merged response equals executing the operation against the union of the subgraphs: each field is fetched from a subgraph that resolves it, entities are joined by key, and null propagates to the nearest nullable parent.",
       "every operation, schema and subgraph response", "Each fixture fixes one plan.", ["crates/engine/src/engine.rs", "crates/engine/query-solver/src/lib.rs"]),
    na("N02", "Every request only reaches data its authorization allows", "For every request, a field guarded by an authentication, scope or policy directive is resolved only when the token of that request satisfies it, and is otherwise null with an error.",
       "every token, operation and schema", "Tests pair some directives with some tokens.", ["crates/engine/src/prepare/mod.rs", "crates/federated-server/src/access_token.rs"]),
    na("N03", "Operation limits and complexity limits are enforced before execution", "For every operation, execution starts only when depth, height, aliases, root fields and complexity are within the configured limits.",
       "every operation and configuration", "Tests sit near one threshold each.", ["crates/engine/operation/src/lib.rs"], over=("inputs", "configurations")),
    na("N04", "Rate limits are never exceeded", "In every window the number of admitted requests per key is at most the configured limit, whatever the arrival order and however many gateways share the store.",
       "every arrival schedule", "Tests send one burst.", ["crates/runtime-local/src/rate_limiting.rs"], over=("schedules", "histories")),
    na("N05", "Cached entities and plans are served only to equal requests", "A cached plan or entity is served only for an equal operation, schema version, headers and arguments, and never after it expired.",
       "every history of requests", "Key collisions need histories that tests do not produce.", ["crates/runtime-local/src/entity_cache.rs", "crates/runtime-local/src/operation_cache.rs"], over=("histories",)),
    na("N06", "A hot reload never mixes two schemas within a request", "For every schedule of reloads and requests, a request runs entirely on one schema and configuration, and no request fails because of a reload.",
       "every schedule", "Needs interleavings.", ["crates/federated-server/src/hot_reload.rs"], over=("schedules",)),
    na("N07", "Extensions cannot reach what they were not permitted", "For every guest extension, calls to network, environment and standard streams succeed only with the permission for it, and a trap in the guest fails only the calls of that guest.",
       "every guest program", "Tests load a few guests.", ["crates/wasi-component-loader/src/lib.rs"], over=("programs",)),
    na("N08", "Equal operations normalize to the same text and different ones do not", "For every operation, the normalized form keeps its meaning and drops only literals, aliases and order that do not change it.",
       "every operation", "Tests hold a few operations.", ["crates/operation-normalizer/src/lib.rs"]),
    na("N09", "MCP tools answer with the schema and operations of the gateway", "For every tool call, search, introspection and execution answer from the current accessible schema only, and a failed validation is explained.",
       "every tool call", "Snapshots of one schema.", ["crates/mcp/src/server.rs"]),
    na("N10", "Subscriptions deliver each event once and end with their client", "For every history of connects, events and disconnects, each subscriber gets each event once in order and its upstream is closed when it leaves.",
       "every history", "Tests run one scenario each.", ["crates/federated-server/src/router/mod.rs"], over=("histories", "schedules")),
    na("N11", "Log lines survive a crash of the process", "Whatever the moment of a crash, each log line handed to the writer before its flush returned is in one of the log files, whole.",
       "every crash point", "Tests never crash.", ["crates/rolling-logger/src/lib.rs"], reason="It quantifies over the operating system's write-back at a crash point, which no source-level flow analysis bounds; L01 decides what the source does decide (which bytes are handed to which file, when files are switched).", over=("crash_points",)),
    na("N12", "Composition ends within time and memory proportional to its input", "For every set of subgraphs, composition ends, and its cost grows polynomially with the size of the schemas.",
       "every set of subgraphs", "Fixtures are small.", ["crates/graphql-composition/src/lib.rs"], reason="A bound on a runtime quantity: loop counts depend on graph shapes (key cycles, interface hierarchies, nested selections), and the analysis takes one representative iteration per loop."),
    na("N13", "Concurrent event producers lose no event", "For every schedule of concurrent hook calls on the same request, each pushed event is taken exactly once and in push order per producer.",
       "every schedule", "Tests are sequential.", ["crates/event-queue/src/lib.rs"], reason="Decided by the lock-free queue of a third-party crate whose algorithm is outside the analysed source; L03/L04 decide what is pushed and when.", over=("schedules",)),
]
for n in NA:
    assert len(n["title"]) <= 80
