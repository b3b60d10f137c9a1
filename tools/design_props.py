# (id -> (decides, oracle, bounds/left open, why beyond the tests))
D={
"C01":("The real `store.Store` is filled by generated write histories (timestamps clustered on few values, duplicates, neighbouring nanoseconds, negative, extreme, out of order; every envelope kind; evictions in between) and then read with generated windows, limits, orders, types and name filters; each read is repeated. Part *big* puts up to 60 000 envelopes on a handful of timestamps.",
 "A list model: filter, sort, cut at the limit, extended over the timestamp the limit falls on. Order inside one timestamp is left open; identity of every envelope is not.",
 "Sampled histories (a few thousand per quick run). Limits below 1 do not reach the store (the read service sees to it)."),
"C02":("Every write and every prune of generated histories is followed by a complete read of all sources in virtual time; the memory consultant runs over generated heap figures and limits.",
 "Before/after difference: what disappeared must be exactly the n oldest (ties open), the evicted count, the vanished sources; what the consultant is told and returns is recomputed.",
 "Sampled; up to a few hundred steps per history."),
"C03":("The C02 histories plus parallel bursts of writes, reads and prunes. At each quiescent point `Meta` and the metrics registry are compared with a full read.",
 "Conservation: ingress = writes, egress = envelopes returned, expired = evicted, size = ingress − expired, count/oldest/newest per source = contents; cache period = age of oldest.",
 "Checked at quiescent points only (the statement says so)."),
"C04":("Writers, readers, meta callers run in bursts that coincide, in virtual time, with the pruning loop; race detector on. Part *emptying* prunes sources to nothing while they are written.",
 "Offline checker over recorded calls (sorted, no inventions, completed writes visible unless evicted, evicted stays evicted) and a conservation check at the end; any race report or panic in code under test is a violation.",
 "Interleavings are those the Go scheduler produces; the evidence counts bursts in which a prune really overlapped."),
"C05":("Generated range tables (partitions, overlaps, replicas, gaps, points, unknown nodes) probed at b−1, b, b+1 for each boundary b and at random hashes; static tables of all sizes; lookups racing with table swaps.",
 "Direct definition of ownership. In the race part each table version answers with a set that identifies it, so a mixed or outdated answer is visible.",
 "Hash function itself is not claimed; only that owners(hash) is right."),
"C06":("Generated batches, layouts and subsets of failing nodes through `IngressReverseProxy`, from one and from many goroutines.",
 "Conservation over recording clients: each envelope × each node, content, order per source, local-only flag.",
 "Success of a routed send is not claimed to mean delivery (by design the code answers success)."),
"C07":("Generated numbers of senders, pauses, batch sizes, intervals, peer moods (healthy, failing, slow, hanging, away for up to forty requests on end) in virtual time under the race detector; bursts beyond the 10 000-envelope buffer.",
 "Accounting: envelopes handed in = seen by the peer once + counted dropped; order per goroutine; batch size; the time bound is exact because time is virtual (interval + 250 ms poll).",
 "The fake peer honours its context, as gRPC does."),
"C08":("`EgressReverseProxy` and `LocalStoreReader` over recording nodes with generated ownership, failures, orders of requests, callers that leave before or during a collection, and virtual time for the meta cache.",
 "A definition of who may answer; union of meta of reachable nodes; age of cached meta ≤ 1 s.",
 "Which of several remote owners answers is open."),
"C09":("Running nodes receive wire-level messages from a generator driven by the protobuf schema (missing and repeated fields, map entries without value, unknown enums, extreme numbers, damaged encodings, malformed and deeply nested queries) from many clients, and, twelve at a time and all different, orderly requests of every RPC whose answers are judged, while witness clients write and read through every service.",
 "The process must live and answer (watchdog of a minute); the witnesses' answers are compared with a model; read limits checked against the definition. Each part runs in its own process so that a crash is an observation.",
 "Damaged encodings only have to be survived."),
"C10":("Schedulers with generated node/range/replica counts over gRPC to fake nodes which fail, hang, restart, lose, keep or invent ranges, while leadership comes and goes, in virtual time; the real command over mutual TLS with a leadership endpoint.",
 "Online monitor for each change when it arrives (leader? valid range?), offline check of the whole state after each calm stretch (cover, no gap/overlap, replicas on distinct nodes, evenness, tables = what nodes hold), connection and goroutine counts at the endpoint.",
 "go-orchestrator is a stand-in (below). COUNT=0 is a configuration error and left out."),
"C11":("Generated histories of add/remove/list/set-table; concurrent histories recorded with invocation and response times.",
 "Sequential set model; porcupine linearizability checker for the concurrent ones; race detector.",
 "Histories are kept short enough for porcupine to decide all of them."),
"C12":("Clusters of one to five nodes in one process, and as real `cmd/log-cache` processes with mutual TLS; concurrent writers send generated envelopes to any node; afterwards every node is asked for every source by read, PromQL and meta; outsiders without certificate try every RPC; 400 envelopes of 60 KB at a time through one to three nodes; runs of envelopes with one time stamp, one instance or both, and blocks sent again by another writer.",
 "Offline comparison of every answer with what was sent; local-only meta shows that non-owners hold nothing.",
 "Clusters are warmed up until every node reaches every other (before that peers' batches may be dropped and counted: C07)."),
"C13":("The nozzle over gRPC in virtual time: generated streams, pauses and bursts, writes which succeed, fail, are slow or hang; overflow of both buffers; the real command between a fake logs provider and a fake Log Cache.",
 "Conservation over the record of what was streamed and written: exactly once, unchanged, order within a write, batch size ≤ 512, half a second, counters add up; only allowed losses.",
 "The 512-batch buffer drops silently by design; this is accounted for, not reported."),
"C14":("Octet-counting TLS clients send generated RFC 5424 streams, cut into random packets, over many connections; hostile clients (garbage, aborted handshakes, resets, stalls) next to healthy ones; idle/active connections; the real command, also starved of file descriptors.",
 "Offline checker of the envelopes Log Cache received, per connection and in order, against a model of each message; invalid counter; goroutine/connection liveness.",
 "Octet framing is done by a stand-in; the RFC 5424 parser is the real one."),
"C15":("Generated envelopes of several sources and generated queries (instant and range; every matcher kind, operators, functions, aggregations), also in parallel under the race detector.",
 "Prometheus's own engine over an independent model of the samples (own sanitising, labels, seconds).",
 "Left out: two gauge metrics with one sanitized name, samples within the second of the query's end, queries whose reference result depends on series order."),
"C16":("Reads that err, hang, delay or return partial data, cancelled callers, in virtual time; generated and mutated query texts; nesting up to 4 MB; extreme times and steps, in a process of its own.",
 "Prometheus's parser plus a definition of times and steps decide what is answerable; anything else must be an error; the timeout is exact in virtual time; answerable queries must give the reference answer (refusing too much is seen).",
 "CPU of deeply nested queries under 64 KiB is quadratic in the engine: left as is, the timeout bounds it."),
"C17":("Generated queries with source ids in every position; extraction compared with the ids the evaluation is seen to read; replaced text evaluated.",
 "Recording reader under Prometheus's engine; structural comparison of the expression with only source_id matchers changed.",
 "Ids with regular-expression syntax are not generated: the proxy joins literals with bars by design. absent() is not evaluated after replacement."),
"C18":("Generated stores, windows, page sizes, failures (with and without data), slow pages, cancellations and deadlines in virtual time; concurrent reads on one reader.",
 "Result compared with the window's contents; retry count and spacing from the trace; error iff a page kept failing or the context ended.",
 "Pages hold whole timestamps (as C01 guarantees)."),
"C19":("Generated requests (reads, PromQL, meta; every trick with paths, encodings, parameters, methods, bodies, headers) of callers with every kind of token through the real proxy over TLS, the real gateway, the real PromQL engine to a recording Log Cache; every source carries a marker; parallel callers; changing grants and a failing Cloud Controller; the real command.",
 "Online: what reached Log Cache and the markers in what came back are judged against the grants of the fake Cloud Controller at that time; refusals must have the status the statement gives; what is authorised must arrive.",
 "mux and jose2go are stand-ins."),
"C20":("Generated histories of key rotation and UAA failure in virtual time with genuine, expired, re-signed, tampered, other-algorithm and odd tokens; concurrent reads under the race detector.",
 "Online model of the keys last published and of the refresh limit; real RSA.",
 "Signature primitive trusted (crypto/rsa through a stand-in for jose2go)."),
"C21":("Generated histories of grants, page layouts, failures, delays of a fake Cloud Controller in virtual time, tokens asking in between; concurrent callers.",
 "Online model of what was listed for which token and when; each request (host, token) and each body (drained, closed) judged.",
 "Sampled histories."),
"C22":("Hostile requests as raw HTTP and as request values through the middleware, concurrently and through a server into one file; the log file of the real command.",
 "Offline matching of log lines and requests (a bijection), field by field with an independent parser of the format.",
 "Sampled."),
"C23":("Requests generated from typed values and spelled in several ways over HTTPS to a running gateway, and to the `cmd/gateway` process configured by its environment, in front of a recording gRPC server with generated replies.",
 "The gRPC request that arrived is compared field by field, the JSON reply with an independent reader.",
 "One known finding (colon at the edge of the last segment)."),
"C24":("Every gRPC code with generated messages on every endpoint; untranslatable requests; unrenderable and oversized replies; outages; impatient clients; mixes from many goroutines.",
 "Status table of grpc-gateway, error shape, message identity (each request's error names the request).",
 "Interleavings sampled."),
"C25":("Generated results with extreme floats, times and labels through Marshal and the encoder; other messages over a recording fallback; many goroutines on one marshaler.",
 "Independent JSON reader; floats compared by bits.",
 "Series without points, which the engine never produces, only have to give valid JSON or an error."),
"C26":("The C25 results encoded and decoded by both decoders, streams of documents, documents broken in one place, mutated documents.",
 "Round trip equality; an independent reader decides whether a document is well-formed; the target must be untouched on error.",
 "Sampled."),
"C27":("Generated walks (dense, duplicate, late, future timestamps; growth while walking; failing, empty, slow reads; all options) in virtual time over a scripted reader.",
 "Online model of the cursor and the hold-back; exactly-once and order of visits; each read's arguments.",
 "Reads return whole timestamps."),
"C28":("The walks of C27 with a recording backoff around each kind, plus call sequences on the retry backoffs.",
 "Protocol automaton over backoff/visitor/reader events; retry counts and waits exact in virtual time.",
 "Sampled."),
"C29":("Generated windows, slow walkers and visitors, contexts that end, in virtual time; built walkers over generated sources.",
 "Trace compared with the specified sequence of windows; contents of each window.",
 "A walker slower than the interval delays windows."),
"C30":("Generated calls of every client method with generated options and answers over a recording HTTP client, over a real gRPC server and over loopback; broken answers; unusable addresses; concurrent calls.",
 "Model of the request and of the result; body-close monitor.",
 "The version question (at most one per call) is not part of the one request."),
"C31":("Generated sequences of requests with scripted token server; concurrent requests under the race detector.",
 "Model of the token cache: which token each request may carry, how many fetches are justified.",
 "Under concurrency a response may invalidate a token fetched meanwhile."),
"C32":("Generated intervals, ids and query results in virtual time; the `cmd/blackbox` process with generated settings.",
 "The query is parsed and compared; the number recomputed; of the process every query it asks over gRPC and HTTP.",
 "Windows of whole seconds, at least one interval long."),
"C33":("Emission loops with generated intervals and send failures in virtual time; measured values with generated uptimes and failures; the `cmd/blackbox` process with generated settings against a Log Cache, gateway and UAA whose answers (points, nothing, errors, uptimes) are scripted round by round.",
 "Each emission judged by time, stamp, tries; the gauge compared with the values; of the process each round: what it asks, and what it emits for exactly those answers.",
 "After a hanging send only the resumption is judged."),
"C34":("Real handshakes between connections made from the shared settings and peers whose certificates (issuer, name, validity, usage, chain), versions and suites are generated; damaged files; the node's, the auth proxy's and the blackbox's connections.",
 "The expectation is computed from how each peer was made.",
 "crypto/tls trusted."),
"C35":("Processes of one or two schedulers and two to four nodes (mutual TLS, 1-20 ranges, 1-2 replicas). Generated histories: nodes killed under load, all of them at once too, started again or left out for a while; a node stopped for seconds; the leading scheduler killed, replaced by the other, or missing while a node is away for seconds; nodes that are back within one term; a trickle of envelopes from every node that does not stop while anything fails.",
 "After each step new sources in every part of the hash space are written through every living node; once two attempts in a row succeed (at most 90 s), everything must be found through every living node, exactly once, at once. Nodes that stayed are compared with what they had; race reports and panics of any process count.",
 "Data of killed nodes is lost by design; go-orchestrator is a stand-in."),
"C36":("Nodes with generated per-source limits and generated orders of writes; nodes whose memory share is a twentieth or twenty times what the process uses; `cmd/log-cache` processes that hold more than a hundredth of the machine's memory with limits of 1 %, 50 % and none set; queries of seconds on nodes that allow 1 ns to 200 ms; `cmd/log-cache` with and without each setting.",
 "Model of what is left; what is left of each source must be its newest; the same query on a patient node shows that it was long.",
 "Limits near the actual use are not judged; gosigar is a stand-in."),
"C37":("All seven commands with every needed setting missing or empty, every number and duration malformed, every file missing, empty, garbage, a directory or of another pair; secrets generated; health ports tried over several loopback addresses and the host's own; blackbox and auth proxy next to UAA and CAPI servers that fail in nine ways, with secrets and tokens looked for in all they print; the auth proxy next to UAA, CAPI and gateway with certificates of another CA or name, the blackbox next to a UAA of a CA the machine knows or not, with and without verification.",
 "Exit code, liveness, output search and refused connections.",
 "A malformed switch counts as off (envstruct) and is not judged."),
}
