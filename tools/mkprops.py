#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Reads return exactly the stored envelopes the request asks for",
  "A read of a source returns exactly the stored envelopes of that source with start <= timestamp < end that pass the envelope-type and name filters, each once, oldest first (newest first when descending), and cut after the limit except that the timestamp the limit falls on is always returned whole. This holds for every mix of timestamps, including many envelopes on the same or on neighbouring nanoseconds, zero, negative and out-of-order ones. Reading changes nothing: envelopes come back as they were written (a name filter may narrow the metrics of a returned gauge), and repeating a read gives the same answer.",
  ["inputs", "histories"], "every history of writes and every combination of window, limit, order, type and name filter",
  "store_test samples a few hand-written windows with well separated timestamps; it never mixes duplicates with adjacent nanoseconds, negative times, filters and limits.",
  ["internal/cache/store/store.go"], [("ordered tree per source, window walk in both directions, same-timestamp completion", "internal/cache/store/store.go Get/treeAscTraverse/treeDescTraverse")],
  ["Store.Put, Store.Get"])
p("C02", "Retention: nothing acknowledged is lost except oldest-first eviction",
  "A written envelope stays readable until it is evicted. A source never holds more than the per-source maximum and an insert into a full source costs exactly its oldest envelope; a prune of n removes exactly n envelopes (all, if fewer), taken oldest-first over all sources, and a source whose last envelope went disappears. The number asked of a prune is what the memory consultant returned, and nothing is pruned when it returns zero. The consultant is told how many envelopes there are, and asks for nothing while heap use is within its limit and otherwise for the share that brings it back to the limit.",
  ["histories", "inputs"], "every history of writes and prunes over any number of sources",
  "the tests prune once or twice over a couple of sources with distinct timestamps; the ties, exact counts and per-source interplay over long histories are not reached.",
  ["internal/cache/store/store.go", "internal/cache/store/prune_consultant.go", "internal/cache/memory_analyzer.go"],
  [("per-source cap", "store.go storage.insertOrSwap"), ("global prune by expiration heap", "store.go truncate/removeOldestEnvelope")],
  ["Store.Put/Get/Meta, MemoryConsultant.GetQuantityToPrune"])
p("C03", "Meta and metrics agree with the contents of the store",
  "For every source and at every quiescent point the meta information equals the contents: count is the number of readable envelopes, expired the number evicted since the source appeared, oldest and newest the smallest and largest timestamp held; a source without envelopes has no entry. The counters balance: ingress equals writes made, egress the envelopes returned, expired the envelopes evicted, and the reported store size, once refreshed, is ingress minus expired. After a prune the cache period is the age of the oldest envelope left.",
  ["histories"], "every history of writes, reads and prunes",
  "tests check single counters after one action; conservation over whole histories is not checked.",
  ["internal/cache/store/store.go"], [("atomic counters and per-source meta", "store.go Put/Meta/truncate/sendTruncationCompleted")],
  ["Store.Meta, the metrics registry"])
p("C04", "The store is correct and crash-free under concurrent use",
  "With any number of goroutines writing, reading, asking for meta and pruning at once, no data race, panic or deadlock occurs; every read returns a sorted, duplicate-free selection of envelopes written to that source; and a write that completed before a read started is in that read unless it was evicted. When everything stops, what is stored, the meta information and the counters agree and equal what was written minus what was evicted.",
  ["schedules"], "every interleaving of writers, readers, meta requests and the pruning loop",
  "the suite has one short concurrent test without an oracle and is not run under the race detector here.",
  ["internal/cache/store/store.go"], [("per-source RWMutex, sync.Map index, atomic count", "store.go"),], ["Store.Put/Get/Meta under concurrency"])
p("C05", "Routing tables answer with exactly the owners of a hash",
  "For every hash the routing table returns exactly the known nodes one of whose ranges contains it, each once, and the static table exactly the one node whose share of the hash space contains it; no hash is without an owner when the ranges cover the space. Installing new ranges replaces the whole old table at once: a lookup running at the same time answers from the old or from the new table, never from a mix, and without data races.",
  ["inputs", "schedules"], "every set of ranges (touching, overlapping, replicated, missing), every hash, every interleaving of lookups and updates",
  "tests look up a handful of hashes in one fixed table.",
  ["internal/routing/routing_table.go", "internal/routing/static_lookup.go"], [("range table behind RWMutex", "routing_table.go"), ("floor search in a tree", "static_lookup.go")],
  ["RoutingTable.Lookup/LookupAll/SetRanges, StaticLookup.Lookup"])
p("C06", "Ingress delivers each envelope once to each owner of its source",
  "Every envelope of a send request goes exactly once, unchanged and in order per source, to each node that owns its source at that moment, and to no other node; a request marked local-only goes to the local node only, and peers are always sent local-only requests so that an envelope never bounces. A node that fails does not keep the others from receiving theirs.",
  ["inputs", "configurations", "fault_sequences"], "every batch, every ownership layout incl. replication and sources nobody owns, every subset of failing nodes",
  "tests use one lookup result and two fixed envelopes.",
  ["internal/routing/ingress_reverse_proxy.go", "internal/routing/local_store_reader.go"], [("fan-out by lookup", "ingress_reverse_proxy.go Send")],
  ["IngressReverseProxy.Send, fake IngressClients"])
p("C07", "Batched sending loses nothing silently and keeps order",
  "Every envelope handed to the batching peer client is either passed to the peer in exactly one request (a failed request is not repeated) or counted in the dropped metric, from however many goroutines it is handed in; nothing is dropped while fewer than 10000 envelopes wait. Envelopes of one goroutine arrive in the order they were handed in, no batch exceeds the configured size or is empty, and with a responsive peer an envelope leaves within the batch interval and a short poll. A failing or hanging peer neither blocks nor crashes the sender, and every request to it has a time limit.",
  ["schedules", "fault_sequences"], "every interleaving of concurrent senders, any buffer overflow, any pattern of peer failures",
  "the suite sends a few envelopes from one goroutine to a healthy peer.",
  ["internal/routing/batched_ingress_client.go"], [("diode buffer and batcher", "batched_ingress_client.go")], ["BatchedIngressClient.Send, fake peer, dropped counter"])
p("C08", "Cluster reads and meta come from the right nodes",
  "A read is answered with the data of a node that owns the source, by the local node when it is one of the owners, and fails with an error instead of returning empty data when the source has no owner or the node asked fails. Cluster-wide meta is the union of the meta information of all reachable nodes (for a source on several nodes the entry of one of them), at most the cache duration of one second old, an unreachable node taking away only its own entries and a caller that gives up none from the answers to others, and local-only meta asks only the local node.",
  ["configurations", "fault_sequences", "histories"], "every ownership layout, local index, set of failing nodes and order of requests",
  "tests fix one layout with one healthy remote.",
  ["internal/routing/egress_reverse_proxy.go", "internal/routing/local_store_reader.go"], [("lookup, prefer local", "egress_reverse_proxy.go Read"), ("fan-out and merge with a short-lived cache", "egress_reverse_proxy.go Meta")],
  ["EgressReverseProxy.Read/Meta"])
p("C09", "No request can crash a Log Cache node",
  "Whatever a client sends to the gRPC services of a node (ingress, egress, orchestration, PromQL), including missing fields, unknown enum values, extreme numbers, malformed queries and requests in any order and concurrency, the node answers with a result or an error status and keeps serving correct answers. Invalid reads (limit above 1000 or negative, start after end, invalid name filter) are refused with an error, and reads without limit or end use 100 and now.",
  ["inputs", "histories", "schedules"], "every well-formed protobuf message on every RPC in any order",
  "tests send well-behaved requests only.",
  ["internal/routing/local_store_reader.go", "internal/routing/orchestrator.go", "internal/routing/ingress_reverse_proxy.go", "internal/promql/promql.go", "internal/cache/log_cache.go"],
  [("request validation", "local_store_reader.go Read"), ("query engine error handling", "internal/promql/promql.go")], ["a running node, over gRPC"])
p("C10", "The scheduler splits the hash space completely and keeps to its role",
  "For every positive number of ranges the scheduler's ranges cover the whole 64-bit hash space without gap or overlap; while it leads, every range ends up on as many distinct nodes as the replication factor asks (or all nodes), evenly spread, and every node is told the table that matches what the nodes actually hold, also after nodes fail, come back or lose ranges. A scheduler that is not leader, or stops being leader half way, changes nothing on any node; asking who leads survives an endpoint that errs or hangs and leaves no connections behind.",
  ["configurations", "fault_sequences", "schedules"], "every node count, range count, replication factor, leadership history and pattern of node failures",
  "tests use 7 ranges over two healthy nodes.",
  ["internal/scheduler/scheduler.go", "internal/routing/orchestrator.go"], [("range arithmetic", "scheduler.go Start"), ("leadership guard", "scheduler.go comm.Add/Remove, Start loop")], ["fake orchestration servers over gRPC"])
p("C11", "An orchestrated node's range list is a set that changes atomically",
  "A node lists exactly the ranges that were added and not removed, each once, whatever the order, repetition and concurrency of add, remove, list and set-table calls, without data races; what a list call returned does not change afterwards. Setting the table hands the complete table over unchanged.",
  ["histories", "schedules"], "every history and interleaving of range calls",
  "tests add and remove one or two ranges sequentially.",
  ["internal/routing/orchestrator.go"], [("range slice behind a lock", "orchestrator.go")], ["OrchestratorAgent RPC methods"])
p("C12", "A cluster answers from any node as one store",
  "In a cluster of nodes that reach one another, with a full routing table, envelopes sent to any node, in batches as large as those of the nozzle and with logs as long as Loggregator allows (60 KB), can be read, queried by PromQL and found in the meta information through every node, exactly once and unchanged, and a peer refuses clients that do not present a certificate of the cluster's CA. When nodes own nothing of a source they hold none of its data.",
  ["configurations", "histories", "schedules"], "every placement of sources, entry node and query node",
  "the in-tree suites for this need expired certificates and use two nodes with one fixed placement.",
  ["internal/cache/log_cache.go", "internal/routing/ingress_reverse_proxy.go", "internal/routing/egress_reverse_proxy.go"], [("wiring of store, proxies and gRPC server", "internal/cache/log_cache.go")], ["running nodes on loopback"])
p("C13", "The nozzle forwards every envelope it received",
  "Every envelope the log provider streams to the nozzle is written to Log Cache exactly once, unchanged and in the order received within each write, in batches of at most 512 and at the latest half a second after it arrived while Log Cache answers; an envelope is lost only when a buffer overflows (100000 envelopes before batching, which the log reports, or 512 batches after it) or when the write that carries it fails or takes longer than its three seconds, and a failed write does not stop later ones. The nozzle asks the provider for exactly the envelope kinds it is configured with, with preferred tags, under its shard id, again after the stream breaks, and its ingress, egress and error counters add up to the envelopes received, the envelopes written and the writes that failed. Its writes are never marked local only.",
  ["histories", "fault_sequences", "schedules"], "every stream of batches, every pattern of write failures and slow writes",
  "tests stream three envelopes into a healthy Log Cache.",
  ["internal/nozzle/nozzle.go"], [("diode buffer, batcher, worker pool", "nozzle.go")], ["fake stream connector and fake Log Cache"])
p("C14", "Each valid syslog message becomes exactly one faithful envelope",
  "Every valid RFC 5424 message received becomes exactly one envelope with the source, instance, timestamp, tags and log (surrounding white space removed), counter, gauge, timer or event content the message carries, in order per connection, is written so that it reaches whichever node serves its source, and is counted. A message that cannot be represented (no app name, process id or timestamp, a timestamp beyond the range of nanoseconds, a log without text, unknown or malformed structured data) is counted as invalid and nothing is sent for it; one with several structured elements becomes the envelope of one of them or is counted invalid. Broken framing ends only its own connection. No input of any client crashes the server or disturbs other connections, a server that could not accept for a while accepts again, and a connection that completes no message for the idle timeout is closed while an active one is kept.",
  ["inputs", "histories", "schedules"], "every byte stream, every split into packets, any number of connections",
  "tests send a table of well-formed messages plus a few bad ones; messages with nil fields are not reached.",
  ["internal/syslog/server.go"], [("octet-counting parser and conversion", "server.go parseListener/convertToEnvelope")], ["TLS connections to a running server, fake IngressClient"])
p("C15", "PromQL selectors return exactly the matching samples",
  "A PromQL query sees exactly the counters, gauges and timers of the sources it names whose sanitized name is the metric asked for and whose labels (tags, source_id and instance_id) satisfy every label matcher (a regular expression on source_id names the sources between its bars): distinct label sets are distinct series, every sample carries its own value and its time cut to the second, and instant and range results are what Prometheus's own engine yields on those samples. Envelopes of other sources, names, labels or times never contribute.",
  ["inputs"], "every set of stored envelopes and every selector, range and time",
  "tests run a few selectors with equality matchers on hand-made data.",
  ["internal/promql/promql.go"], [("Select builds series from envelopes", "promql.go LogCacheQuerier.Select")], ["PromQL.InstantQuery/RangeQuery over a fake DataReader"])
p("C16", "PromQL queries fail loudly and never crash",
  "A query that cannot be answered completely (unparsable query or time or step, a selector without source_id or metric name, an end before the start, failing or timed-out read, unsupported result kind) returns an error and is never answered with partial or empty data as if it had succeeded; no query text or parameter panics or exhausts the process, a query with a failed read is counted, and a query ends within its timeout whatever its reads do. Times and steps are understood as Prometheus does: decimal seconds or RFC 3339, decimal seconds or durations.",
  ["inputs", "fault_sequences"], "every query string, every parameter, every reader failure",
  "tests cover a handful of malformed strings.",
  ["internal/promql/promql.go", "internal/promql/parsing.go"], [("closure error propagation", "promql.go InstantQuery/RangeQuery"), ("parsers", "parsing.go ParseTime/ParseStep")], ["PromQL.InstantQuery/RangeQuery, ParseTime, ParseStep"])
p("C17", "Source ids in a query are found and replaced completely",
  "Extracting source ids from a PromQL query yields exactly the source ids that its selectors ask for and that evaluating it may read, in whatever part of the expression they stand. Replacing them by expansions changes only the source_id matchers (ids without an expansion stay), covers every selector, keeps the rest of the query's meaning, and the result parses and reads exactly the expanded ids.",
  ["inputs", "programs"], "every PromQL expression",
  "tests cover a few expressions; authorisation depends on none being missed.",
  ["internal/promql/promql.go"], [("AST visitors", "promql.go ExtractSourceIds/ReplaceSourceIdSets")], ["ExtractSourceIds, ReplaceSourceIdSets vs. a recording DataReader"])
p("C18", "The walking reader returns the whole window or an error",
  "The reader behind PromQL returns every envelope of the requested window and types, each once and in order, however many pages it takes (those younger than a second may be held back); if a page keeps failing or the context ends it returns an error, never a partial or empty result as success. A failing page is retried up to four times in a row, a second apart, before it gives up, and reading stops as soon as the window is exhausted. Concurrent reads do not affect each other.",
  ["fault_sequences", "inputs", "histories"], "every window, page size and pattern of page failures and cancellations",
  "two tests: one healthy read, one cancelled context.",
  ["internal/promql/data_reader/walking_data_reader.go", "pkg/client/walk.go"], [("Walk with retry on error", "walking_data_reader.go Read")], ["WalkingDataReader.Read over a fault-injecting reader"])
p("C19", "Only authorised data leaves the auth proxy",
  "A non-admin caller gets data only of sources the Cloud Controller grants to the caller's own token: a read of any other source, and a PromQL query in which a named source or app stands for none of the caller's sources, are answered 404 without reaching Log Cache; a query without source ids is answered 400; an app name in a query stands for those of its instances' sources the caller is granted; and meta contains only the caller's sources. Without a valid token every such request is refused with 404 (400 for a query that cannot be parsed). Whatever the method, encoding, repeated parameters, form body or header tricks of the request, what reaches Log Cache is what was authorised; what is authorised does reach it, and admins are not restricted.",
  ["inputs", "histories"], "every HTTP request and token, every assignment of sources",
  "tests try a few paths with well-formed GET requests.",
  ["internal/auth/cf_auth_middleware.go", "internal/cfauthproxy/cf_auth_proxy.go", "internal/auth/capi_client.go"], [("router and per-route authorisation", "cf_auth_middleware.go Middleware"), ("reverse proxy", "cf_auth_proxy.go")], ["HTTP in front of the middleware, recording backend / real gateway behind it"])
p("C20", "Only genuine, unexpired tokens are believed",
  "A token is accepted exactly if it is signed with RS256 by the key the UAA published under the token's key id when it was last asked, and has not expired; the caller's token, expiry and admin role (doppler.firehose or logs.admin scope) are those the token states. Any other token, however malformed, is refused with an error and never crashes the proxy. A key id not known, or a signature that does not fit the known key, makes the proxy ask the UAA again, so key rotation is picked up, but at most once per refresh interval, under concurrency too; every response of the UAA is closed.",
  ["inputs", "histories", "schedules"], "every token, key rotation history and UAA failure pattern, any concurrency",
  "tests have one happy token and a few malformed ones.",
  ["internal/auth/uaa_client.go"], [("JWS verification and key cache", "uaa_client.go Read/RefreshTokenKeys")], ["UAAClient.Read, RefreshTokenKeys over a fake UAA"])
p("C21", "Authorisation answers follow the Cloud Controller and fail closed",
  "The proxy's idea of a token's sources is exactly what the Cloud Controller listed over all result pages (apps and services) when last asked, is never older than the cache time, is never shared between tokens, and fails closed: when the Cloud Controller answers with errors nothing is authorised. A source not in the cached list is asked for again, at most three times within the cache time. App name lookups yield exactly the apps listed under those names. Requests carry the caller's own token, go only to the configured Cloud Controller, every response is drained and closed, and expired cache entries are dropped.",
  ["histories", "fault_sequences", "schedules"], "every sequence of grants, revocations, page layouts and failures over time and concurrent callers",
  "tests check one refresh and one error.",
  ["internal/auth/capi_client.go"], [("token cache with expiry", "capi_client.go"), ("pagination", "capi_client.go doPaginatedRequest")], ["CAPIClient over a fake Cloud Controller, virtual time"])
p("C22", "Every proxied request leaves exactly one access log line",
  "Each request the proxy receives writes exactly one well-formed line to the access log, before it is handled, with the true method, path (escaped or not) and query, source and destination addresses and request id of that request; no request content can add lines, forge fields or break the format, and concurrent requests do not interleave within a line.",
  ["inputs", "schedules"], "every request line and header, any concurrency",
  "tests log single tame requests.",
  ["internal/auth/access_log.go", "internal/auth/access_logger.go", "internal/auth/access_middleware.go"], [("CEF-like formatting", "access_log.go")], ["AccessMiddleware/AccessLogger output"])
p("C23", "The gateway translates HTTP to gRPC faithfully",
  "Every GET on the read, meta, query and query_range endpoints reaches Log Cache as the one gRPC request with exactly the same source id (any escaping), times, limit, types, order, name filter and query, and the reply, also a read of ten megabytes, is returned as JSON carrying exactly the data of the gRPC reply, newline-terminated. The info endpoint always answers valid JSON with the configured version and the uptime.",
  ["inputs"], "every parameter value and every reply",
  "the gateway specs that pass here cover the info endpoint and constructor only.",
  ["internal/gateway/gateway.go", "pkg/rpc/logcache_v1/egress.pb.gw.go", "pkg/rpc/logcache_v1/promql.pb.gw.go"], [("grpc-gateway mux with the PromQL marshaler", "gateway.go listenAndServe")], ["HTTPS to a running gateway, recording gRPC backend"])
p("C24", "Gateway errors keep their status and their documented shape",
  "When Log Cache answers with an error, or a request cannot be translated, the gateway answers with the HTTP status that belongs to the error code and a JSON body: for the PromQL endpoints {status:error, errorType, error} with the error's own message, otherwise the standard gateway error. An error never looks like success, never carries the data of another request, and the gateway keeps serving afterwards, under concurrency too.",
  ["fault_sequences", "inputs", "schedules"], "every gRPC status and message on every endpoint",
  "the specs for this need expired certificates; they sample one code.",
  ["internal/gateway/gateway.go"], [("error handler", "gateway.go httpErrorHandler")], ["HTTPS to a running gateway, failing gRPC backend"])
p("C25", "PromQL results are rendered as valid Prometheus JSON",
  "For every query result the marshaler either fails or writes valid JSON in the Prometheus API format: status, resultType, metrics as objects, times as numbers with millisecond precision, values as strings that parse back to the same float (including NaN, infinities, signed zero and the smallest and largest numbers), empty results as [] and not null. Encoder and Marshal write the same document, newline-terminated, and other message types are left to the fallback.",
  ["inputs"], "every result message: any label set, any float, any number of series",
  "marshaler_test uses a few literals.",
  ["pkg/marshaler/marshaler.go"], [("assemble*", "marshaler.go")], ["PromqlMarshaler.Marshal/NewEncoder"])
p("C26", "Marshalling PromQL results and back loses nothing",
  "Decoding what the marshaler encoded gives back the same result: same kind, series and samples in the same order, same labels, same values bit for bit and times to the millisecond; Unmarshal and the decoder agree on every input. Input that is not a well-formed result of the expected kind (wrong type, wrong point length or types, unparsable numbers, truncated JSON) yields an error, leaves the target untouched, and never panics.",
  ["inputs"], "every result and every byte string",
  "tests decode a dozen literals.",
  ["pkg/marshaler/marshaler.go"], [("disassemble*", "marshaler.go")], ["PromqlMarshaler.Unmarshal/NewDecoder"])
p("C27", "Walk visits every matching envelope once, in order",
  "Walking a source hands the visitor every envelope from the start time (up to but excluding the end time, if set) exactly once and in order, provided each read returns whole timestamps; envelopes younger than the walk delay are held back and visited later rather than skipped (with an end time set, until an empty batch has been waited out). Each read asks for the window after the last visited timestamp with the configured end, limit, types and name filter.",
  ["inputs", "histories", "schedules"], "every stream of envelopes, batch split, growth of the cache while walking and choice of options",
  "walk_test scripts a few batches.",
  ["pkg/client/walk.go"], [("cursor and too-new pruning", "walk.go Walk")], ["client.Walk over a scripted reader, virtual time"])
p("C28", "Walk stops, retries and backs off exactly as configured",
  "Walk ends when the visitor says so, when the end of the window is reached, when the backoff declines after an error or an empty batch, or when the context ends during a failing read, and not before; after each error or empty batch the backoff is asked once, and it is reset after each successful batch. A retry backoff refuses exactly when the configured number of consecutive failures is reached and waits its interval before every retry it grants, and a visitor is never called again after it returned false nor with an empty batch.",
  ["fault_sequences", "histories"], "every sequence of errors, empty batches, data, cancellations and backoff answers",
  "walk_test scripts single transitions.",
  ["pkg/client/walk.go"], [("backoff protocol", "walk.go Walk, RetryBackoff")], ["calls on a recording Backoff, virtual time"])
p("C29", "Window reports every period once, in steps of the interval",
  "Window calls the walker once per interval for consecutive windows of the given width, each starting one interval after the previous, with a context bounded by the interval, hands each result to the visitor, and stops when the visitor says so and not before; a walker built on a source reads all of that window's envelopes and nothing outside it.",
  ["histories", "inputs"], "every width, interval, start and sequence of visitor answers and slow walkers",
  "tests check the first two windows.",
  ["pkg/client/window.go"], [("ticker loop", "window.go Window"), ("BuildWalker", "window.go")], ["client.Window, BuildWalker, virtual time"])
p("C30", "The client says what it was asked and returns what it was told",
  "Each client call sends one request that carries exactly the given source id, times, limit, types, order, name filter, query and step (times to the millisecond for PromQL), to the API path of the server's version, honouring the context, and the same over HTTP as over gRPC; it returns exactly the envelopes, meta or result of the response. A non-success status, a malformed body or a transport error is an error, never data; every response body is closed, and options never leak from one call into another.",
  ["inputs", "fault_sequences", "configurations"], "every argument, option mix, server version, status and body",
  "client_test samples one value per option.",
  ["pkg/client/client.go"], [("request building and response decoding", "client.go")], ["client.Client over a recording HTTP client and a gRPC server"])
p("C31", "The OAuth2 client uses a current token and fetches no more than needed",
  "Every request without its own Authorization header is sent with a token obtained from the OAuth2 server for the configured client or user; a token is reused by all requests until a response says otherwise, and after a non-success response the next request fetches a new one. A failing or malformed token answer is an error and nothing is sent or remembered; concurrent use neither races nor mixes tokens up, and token responses are closed.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of requests, expiries and token server failures",
  "tests make one or two sequential requests plus one racy smoke test.",
  ["pkg/client/oauth2_http_client.go"], [("token cache under a mutex", "oauth2_http_client.go Do/getToken")], ["Oauth2HTTPClient over a recording HTTP client"])
p("C32", "Blackbox reliability is received over expected points",
  "The reliability the blackbox computes is the number of points its own metric has in the queried window divided by the number expected there (the whole emission intervals that fit into the window), from exactly one query for exactly that metric, source id, window (in whole seconds) and time (now less the lag, cut to the sample interval); a failing query or a missing series is an error and never a number. It never panics, whatever the query returns.",
  ["inputs", "fault_sequences"], "every configuration of intervals and every query result",
  "tests check two hand-made results.",
  ["internal/blackbox/blackbox.go"], [("ReliabilityCalculator", "blackbox.go Calculate/CountMetricPoints")], ["ReliabilityCalculator.Calculate over a fake client"])
p("C33", "Blackbox emits its test metrics on time and reports honestly",
  "The blackbox sends one test envelope per emission interval, stamped with the interval boundary, trying a failing send up to five times without skipping later emissions, and logs a send that failed for good. Every sample interval it measures the reliability over gRPC and, where enabled, over HTTP, the failure of one keeping nothing of the other back; measured values are emitted together, exactly as computed, in one gauge envelope, except that nothing is emitted when there is nothing to report or the VM is known to have been up for less than ten minutes. An unknown uptime, a failing send or a blackbox without an HTTP data source never stops or crashes it.",
  ["fault_sequences", "histories"], "every interval, send failure pattern, uptime answer and set of values",
  "tests emit a couple of envelopes to a healthy server.",
  ["internal/blackbox/blackbox.go", "cmd/blackbox/main.go"], [("ticker loop and retries", "blackbox.go StartEmittingTestMetrics/emitTestMetrics"), ("uptime guard", "blackbox.go EmitMeasuredMetrics")], ["fake IngressClient, virtual time"])
p("C34", "TLS: only strong protocols and only trusted peers",
  "Connections made or accepted with the shared TLS settings (Log Cache's gRPC, the auth proxy's server) use at least TLS 1.2, and with TLS 1.2 only the two ECDHE-RSA AES-GCM suites. A client accepts a server only if its certificate chains to the configured CA and carries the expected name, Log Cache's gRPC server answers only clients that present a certificate of its CA, and the auth proxy only trusts a gateway of the configured CA. Broken, missing or mismatched certificate files give an error instead of weaker settings, and what is configured for one connection (skipping verification, say) never weakens another.",
  ["configurations", "inputs"], "every peer certificate, protocol version and cipher offer, every broken file",
  "the in-tree TLS specs need expired certificates and cannot run; nothing tests who is refused.",
  ["internal/tls/tls.go", "internal/blackbox/blackbox.go", "internal/cfauthproxy/cf_auth_proxy.go", "cmd/log-cache/main.go"], [("TLS config", "tls.go NewMutualTLSConfig/NewBaseTLSConfig"), ("HTTP client of the blackbox", "blackbox.go NewHttpEgressClient/buildHttpClient"), ("transport to the gateway", "cf_auth_proxy.go NewTransportWithRootCA")],
  ["real handshakes over loopback"])
p("C35", "A cluster recovers from crashes without help",
  "When nodes of a cluster that a scheduler looks after crash, hang or restart at any moment, under load, or its scheduler does, or another scheduler takes over the leadership, no other process crashes and a node that stayed keeps the data it holds; within a bounded time envelopes sent through any running node are found through every running node, by read and meta, exactly once and unchanged, with the ranges of nodes that are gone taken over by the others; once settled, nothing fails, also while no scheduler runs.",
  ["crash_points", "histories", "schedules"], "every sequence of crashes, restarts, pauses and leadership changes, at every moment, with and without replication",
  "no test in the tree runs more than one component, let alone restarts one.",
  ["cmd/log-cache/main.go", "cmd/scheduler/main.go", "internal/cache/log_cache.go", "internal/scheduler/scheduler.go", "internal/routing/orchestrator.go", "internal/routing/routing_table.go", "internal/routing/batched_ingress_client.go", "internal/routing/egress_reverse_proxy.go"],
  [("terms that list, move and publish ranges", "scheduler.go Start/setRemoteTables"), ("an atomic table per node", "routing_table.go SetRanges"), ("reconnecting peers", "log_cache.go setupRouting")],
  ["the processes, over gRPC"])
p("C36", "A node keeps to its configured limits",
  "A node holds at most the configured number of envelopes per source, whatever their order (each further one costs the oldest held), evicts oldest envelopes as long as its heap is above the configured share (in percent) of the system's memory and none for that reason while it is below, and ends a PromQL query that takes longer than the configured time with an error. The limits come from its options or its environment, with the documented defaults (100000 envelopes, 50 %, 10 s), and the memory figures it reports are the system's.",
  ["inputs", "configurations"], "every limit, order of writes and query",
  "tests of the node use one small limit, and none has a node short of memory or time.",
  ["internal/cache/log_cache.go", "internal/cache/memory_analyzer.go", "internal/cache/store/prune_consultant.go", "internal/cache/store/store.go", "cmd/log-cache/main.go", "cmd/log-cache/config.go", "internal/promql/promql.go"],
  [("options handed to store, consultant and engine", "log_cache.go Start/setupRouting"), ("memory figures", "memory_analyzer.go Memory")],
  ["whole nodes, over gRPC, and their metrics"])
p("C37", "Commands start as configured or not at all, and expose nothing",
  "Each command ends with a failure and serves nothing when a needed setting is missing or empty, a number or duration cannot be understood, or a certificate, key or CA file is missing, broken or does not fit; with complete settings it starts, those with a default being optional. The auth proxy and the blackbox send nothing to a UAA, CAPI or gateway whose certificate does not chain to a CA they are told (or, for want of that, the machine's) or carries another name, unless told to skip verification, which the gateway's never is. Client secrets, private keys and the tokens it is shown never appear in what it prints, and its health and profiling endpoints answer on the loopback interface's own address only.",
  ["configurations"], "every setting of every command, missing or broken in any way",
  "no test starts a command.",
  ["cmd/log-cache/config.go", "cmd/log-cache/main.go", "cmd/scheduler/config.go", "cmd/scheduler/main.go", "cmd/nozzle/config.go", "cmd/nozzle/main.go", "cmd/syslog-server/config.go", "cmd/syslog-server/main.go", "cmd/gateway/config.go", "cmd/gateway/main.go", "cmd/cf-auth-proxy/config.go", "cmd/cf-auth-proxy/main.go", "cmd/blackbox/config.go", "cmd/blackbox/main.go", "internal/tls/tls.go"],
  [("environment to configuration", "cmd/*/config.go LoadConfig"), ("start-up", "cmd/*/main.go")],
  ["the processes: exit code, output, listening addresses"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
