#!/usr/bin/env python3
# Emits /verif/properties.jsonl.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
S,I,H,C,F,X='schedules','inputs','histories','configurations','fault_sequences','crash_points'

p('C01','Every ended sampled span is exported exactly once to every exporter',
 'A recording span whose sampled bit is set is delivered to every exporter registered when it is first ended, exactly once however often and from however many goroutines it is ended, and never before it is ended. A span that is not sampled is never delivered to an exporter. The delivered record carries the span\'s final state and an end time.',
 [S,H,I],'all interleavings of concurrent and repeated End calls, all exporter sets, all sampling outcomes',
 'Tests end one span once with one exporter from one goroutine; repeated, concurrent and multi-exporter ends are unbounded.',
 ['trace/trace.go','trace/export.go'],[('per-span once guard around export','trace/trace.go (*span).End'),('copy-on-write exporter set','trace/export.go')],['Exporter.ExportSpan'])
p('C02','Span state is free of data races',
 'Every mutable part of a recording span - name, status, attributes, annotations, message events, links, child count and the drop counters - is read and written only while the span\'s own lock is held once the span has been handed to the user. Any number of goroutines may call any mix of the span\'s methods concurrently.',
 [S],'all interleavings of all span methods on one span',
 'Race-freedom quantifies over schedules; the race detector only sees the accesses a test happens to overlap.',
 ['trace/trace.go','trace/spanstore.go'],[('span mutex','trace/trace.go span.mu')])
p('C03','Exported span data is an immutable snapshot',
 'The record given to an exporter (or a debugging page) shares no mutable memory with the live span: attributes, annotations, message events and links are fresh copies with the matching drop counts, and later calls on the span never change a record already handed out.',
 [H,S],'all histories of span operations before, between and after snapshots',
 'Aliasing only shows when a later mutation hits the shared memory; tests inspect a record once, immediately.',
 ['trace/trace.go','trace/evictedqueue.go','trace/lrumap.go'],[('snapshot construction','trace/trace.go (*span).makeSpanData')])
p('C04','Nil, absent and non-recording spans are safe no-ops',
 'Every method of the span API may be called on a nil span, on the span found in an empty context, and on a span that does not record, without panicking. Mutators on a non-recording span have no effect, and a nil span reports that it is not recording and has an empty span context.',
 [I,H],'every span method, on every kind of absent or non-recording span, with any arguments',
 'The tests exercise a handful of methods on a non-recording span; the guarantee is per method and per nil shape.',
 ['trace/trace_api.go','trace/trace.go'],[('nil guards','trace/trace_api.go'),('recording guards','trace/trace.go')])
p('C05','Span collections stay within the configured limits and count drops',
 'Attributes, annotations, message events and links each keep at most the configured number of entries. On overflow the oldest (for attributes, least recently set) entry is discarded and the corresponding dropped count increases by exactly one per discarded entry, and the exported record reports for each collection its own entries and its own count.',
 [H,I],'all sequences of additions against all limits',
 'Tests use one small limit and one sequence; the invariant is over all histories and the pairing of four collections, limits and counters.',
 ['trace/trace.go','trace/evictedqueue.go','trace/lrumap.go','trace/config.go'],[('bounded FIFO','trace/evictedqueue.go'),('bounded LRU with eviction callback','trace/lrumap.go')])
p('C06','A started span gets the right identity, parent and sampling decision',
 'A span with a parent keeps the parent\'s trace ID, trace state and other option bits and records the parent\'s span ID and whether the parent was remote; a span without a parent gets a new trace ID; every span gets a new span ID. A sampler is consulted exactly when there is no parent, the parent is remote, or the caller supplied a sampler - the caller\'s sampler taking precedence over the configured default - and receives the span\'s own parameters; otherwise the parent\'s decision is kept. Only sampled spans record unless local span storage is enabled.',
 [I,C],'all combinations of parent kind, sampler option, default sampler decision, option bits and local span store setting',
 'Tests cover a few rows of the decision table; the rule is a function over all of it.',
 ['trace/trace.go','trace/sampling.go','trace/trace_api.go'],[('start logic','trace/trace.go startSpanInternal, StartSpan, StartSpanWithRemoteParent'),('samplers','trace/sampling.go')])
p('C07','Generated IDs are non-zero and generation is thread-safe',
 'The default generator never returns an all-zero trace ID or span ID, is initialised from entropy exactly once before first use, and may be called from any number of goroutines without a data race. Span IDs come from a full-period sequence (odd increment), so they do not repeat early.',
 [S,I],'all random states and all interleavings of concurrent span starts',
 'A zero ID has negligible probability in a test; race freedom quantifies over schedules.',
 ['trace/trace.go'],[('ID generator','trace/trace.go defaultIDGenerator')])
p('C08','Global tracing configuration updates are atomic and partial',
 'Applying a configuration changes only the fields it provides (non-nil, positive) and preserves all others, concurrent applications never lose each other\'s fields, and a configuration or exporter set that has been published is never modified afterwards. Registering or unregistering an exporter affects exactly that exporter.',
 [S,H,C],'all interleavings of configuration and exporter changes with running spans',
 'Lost updates and in-place mutation need specific interleavings; tests apply one configuration sequentially.',
 ['trace/config.go','trace/export.go'],[('copy-on-write under a writer lock','trace/config.go ApplyConfig'),('exporter set','trace/export.go')])
p('C09','The local span store tracks active and finished spans faithfully',
 'With local span storage enabled, a span is in its name\'s active set from start until it ends and never afterwards; on ending it is offered to exactly one bucket - by latency when its status is OK, by status code otherwise. Bucket index and reported bucket bounds agree, buckets never exceed their configured size, resizing keeps the newest spans, and all store state is accessed under its lock.',
 [S,H,I],'all latencies, codes, sizes and interleavings of start, end, resize and report',
 'Tests start one span; buckets, resizing and reporting under concurrency are unbounded.',
 ['trace/spanstore.go','trace/spanbucket.go','trace/trace.go'],[('span store','trace/spanstore.go'),('latency buckets','trace/spanbucket.go')])
p('C10','Wire decoders never panic, whatever the bytes',
 'Decoding trace context from HTTP headers (B3, W3C, Stackdriver), decoding it from the binary format, and decoding tags never panics or reads out of bounds for any input bytes or header strings.',
 [I],'every possible byte string or header value',
 'Tests decode a few valid and malformed samples; safety is over all inputs, including hostile lengths that overflow arithmetic.',
 ['plugin/ochttp/propagation/b3/b3.go','plugin/ochttp/propagation/tracecontext/propagation.go','exporter/stackdriver/propagation/http.go','trace/propagation/propagation.go','tag/map_codec.go','internal/tagencoding/tagencoding.go','resource/resource.go'],[('length checks before every access','the decoders')])
p('C11','Malformed trace context is rejected as a whole',
 'A decoder reports success only when every mandatory part of the input was present, had exactly the prescribed length and alphabet, and - for W3C - version, trace ID and span ID are valid and non-zero; whenever it reports failure the span context it returns is entirely zero. A request carrying malformed context therefore starts a new trace instead of joining a corrupted one.',
 [I],'every possible header value or byte string',
 'Tests try a list of malformed headers; the rule is for all inputs and every field.',
 ['plugin/ochttp/propagation/b3/b3.go','plugin/ochttp/propagation/tracecontext/propagation.go','exporter/stackdriver/propagation/http.go','trace/propagation/propagation.go'],[('validation chain','each SpanContextFromRequest / FromBinary')])
p('C12','Propagation encoders and decoders agree on the format',
 'For every propagation format, what the encoder writes the decoder reads back: same header names, same field order, widths, offsets and bases, same sampled bit, so that encoding a span context and decoding it yields the same trace ID, span ID and sampling decision (and trace state where supported).',
 [I],'every span context',
 'Round-trip tests use a few contexts; agreement of two independently written functions is over all values.',
 ['plugin/ochttp/propagation/b3/b3.go','plugin/ochttp/propagation/tracecontext/propagation.go','exporter/stackdriver/propagation/http.go','trace/propagation/propagation.go','tag/map_codec.go','internal/tagencoding/tagencoding.go'],[('encoder/decoder pairs','the propagation packages')])
p('C13','Outgoing HTTP instrumentation never modifies the caller\'s request',
 'The instrumented HTTP transport, when it adds trace headers or context, works on its own copy: the request passed by the caller and its header map are never written to. Every request it sends carries all of the caller\'s headers and the trace headers of the span started for it.',
 [I,C],'every request, propagation format and transport configuration',
 'A write to the caller\'s request is only visible to code that reuses it; tests send a request once.',
 ['plugin/ochttp/trace.go','plugin/ochttp/client.go','plugin/ochttp/client_stats.go'],[('request and header copy','plugin/ochttp/trace.go RoundTrip')])
p('C14','A tag map attached to a context never changes',
 'Deriving a new context with tag mutators never changes the tag map visible through the original context or any other context derived from it, and when any mutator fails the returned context is the original one with none of the mutators applied.',
 [H,I],'all trees of context derivations and all mutator lists, including failing ones',
 'Tests derive once and read once; sharing shows only across branches of a derivation tree.',
 ['tag/map.go','tag/context.go','tag/map_codec.go'],[('copy on derive','tag/map.go New')])
p('C15','Only valid tag keys and values enter a tag map',
 'No tag key or value that is longer than 255 bytes, contains a character outside printable ASCII, or (for keys) is empty can enter a tag map or be created as a key, whether through the API or by decoding received bytes; invalid input yields an error instead.',
 [I],'every string, through every way of building a tag map',
 'The set of strings and the set of entry points are open-ended; tests try a few strings via one entry point.',
 ['tag/validate.go','tag/map.go','tag/key.go','tag/map_codec.go'],[('validators','tag/validate.go')])
p('C16','Tag mutators do what they say and local tags never leave the process',
 'Insert adds only an absent key, update changes only a present key, upsert always sets, delete always removes, and a multi-step mutation applies in order to exactly the given keys. A tag whose metadata forbids propagation is never written into the encoded form, every other tag is, and a decoded tag is propagatable again.',
 [I,H],'all tag maps, mutator sequences and metadata',
 'Tests check sample maps; the rule is a function over all maps and metadata.',
 ['tag/map.go','tag/metadata.go','tag/map_codec.go'],[('mutators','tag/map.go'),('encoder filter','tag/map_codec.go')])
p('C17','Stats collection state is free of data races',
 'All state of a stats collector - registered views, measures, collected rows, exporters, reporting period, resource - is accessed only under its synchronisation regime, so recording, registering, retrieving, reading for export, changing exporters and stopping may happen concurrently from any goroutines without a data race.',
 [S],'all interleavings of all package and meter operations',
 'Race-freedom quantifies over schedules that tests sample at best once.',
 ['stats/view/worker.go','stats/view/worker_commands.go','stats/view/view.go','stats/view/collector.go'],[('single worker goroutine plus mutex','stats/view/worker.go')])
p('C18','Every synchronous stats operation gets exactly one answer',
 'Registering, unregistering, retrieving data and any other operation that waits for the stats collector is answered exactly once on every path, including errors and panicking-free early exits, so no caller can block forever and the collector never blocks on an answer nobody reads.',
 [H,S],'every command, every path through its handling, every state of the collector',
 'A missing answer on one error path is a hang that tests only see if they take that path.',
 ['stats/view/worker_commands.go','stats/view/worker.go'],[('reply channels','stats/view/worker_commands.go')])
p('C19','Each measurement reaches every subscribed view exactly once, all or nothing',
 'A recorded measurement is aggregated exactly once by every view registered for its measure and by no other view, with the tags, attachments and time of the recording. A recording call whose tag mutators fail records nothing at all; one without measurements, or whose measures have no registered view, has no effect.',
 [I,H],'all measurement lists, view sets, tag mutators and registration histories',
 'Fan-out over all views and all-or-nothing over all error positions cannot be sampled exhaustively.',
 ['stats/record.go','stats/view/worker_commands.go','stats/view/worker.go','stats/view/view.go'],[('record path','stats/record.go RecordWithOptions'),('fan-out','stats/view/worker_commands.go')])
p('C20','Collected data handed out is never modified afterwards',
 'Rows returned by retrieving data, rows passed to exporters, and metric points produced for readers are private copies: recording further measurements never changes them, including the buckets and exemplars inside a distribution.',
 [H,S],'all histories of recording after data was handed out, for every aggregation kind',
 'Aliasing appears only when someone keeps the data and recording continues; tests compare immediately.',
 ['stats/view/aggregation_data.go','stats/view/view.go','stats/view/collector.go','stats/view/view_to_metric.go'],[('clone per aggregation','stats/view/aggregation_data.go')])
p('C21','Aggregations compute count, sum, last value and distribution correctly',
 'For every sequence of samples a count view reports the number of samples, a sum view their sum, a last-value view the latest one, and a distribution view count, mean, sum of squared deviations, minimum, maximum and per-bucket counts in which each sample falls in exactly the bucket whose bounds contain it. Every combination of measure type and aggregation converts to a metric of the documented kind without failing.',
 [I,H],'all sample sequences, bucket layouts, measure types and aggregations',
 'Tests add a few positive samples; signs, boundaries and the type matrix are unbounded.',
 ['stats/view/aggregation_data.go','stats/view/aggregation.go','stats/view/view_to_metric.go','stats/view/collector.go'],[('addSample per aggregation','stats/view/aggregation_data.go'),('metric conversion','stats/view/view_to_metric.go')])
p('C22','View registration is validated up front and conflicts are rejected',
 'All views of a registration call are validated (measure, aggregation, printable name of at most 255 bytes, no negative bucket bounds) before any is registered: one invalid view registers none and returns an error. A view whose name is taken by a view with another measure, aggregation, bounds or tag keys is rejected with an error, leaving the registered view and its data alone, while registering an equal view again is a no-op. A registered view is fed by its measure from an empty state until it is unregistered, which reports its data to every exporter first and then removes it entirely.',
 [H,I],'all sequences of register and unregister calls with valid, invalid, equal and conflicting views',
 'Ordering and partial failure need specific multi-view sequences.',
 ['stats/view/worker.go','stats/view/worker_commands.go','stats/view/view.go'],[('validation before registration','stats/view/worker_commands.go registerViewReq'),('comparison of views','stats/view/view.go same'),('subscription flag','stats/view/view.go')])
p('C23','A stats meter can be stopped safely at any time',
 'Stopping a meter once, repeatedly or concurrently, and using it after it was stopped, never panics and never blocks forever. A meter\'s metrics producer is registered with the global metrics manager while it runs and is not registered once a stop has completed.',
 [S,H],'all interleavings of start, stop, record, register and retrieve',
 'Stop races need specific interleavings; tests stop once at the end.',
 ['stats/view/worker.go','stats/view/worker_commands.go'],[('quit/done channels and stop-once','stats/view/worker.go')])
p('C24','Metric registry entries keep their identity',
 'A metric name denotes one metric of one kind: re-adding it with a different kind is an error and changes nothing. A time series is identified exactly by its ordered label values including whether each is present - distinct label values never share a series and equal values always do - a wrong number of label values is an error, and constant labels apply to every series.',
 [I,H,S],'all names, kinds, label value lists (any length and content) and interleavings',
 'Collisions and lost series need unusual label values or interleavings that tests do not use.',
 ['metric/registry.go','metric/common.go','internal/tagencoding/tagencoding.go'],[('base metric table and value encoding','metric/common.go')])
p('C25','Cumulative metrics never decrease and reads report what was written',
 'A cumulative entry\'s value never decreases (short of integer overflow): increments that are not positive are ignored, whatever the interleaving, and no concurrent increment or addition is lost. A gauge reports its latest set or added value (clamped at zero when read), and derived metrics report what the user\'s function returns at read time.',
 [S,I],'all increments (negative, zero, NaN) and all interleavings of writers and readers',
 'Lost updates and decreases need specific interleavings or special values.',
 ['metric/cumulative.go','metric/gauge.go'],[('atomic compare-and-swap and add','metric/cumulative.go')])
p('C26','Every metric kind is read with its own type and unit of value',
 'Reading the registry yields for each metric its descriptor and, for every entry, one point whose value type (integer or double) and kind (gauge or cumulative) match how the metric was created; every kind offered by the API is covered, and derived entries appear only for functions of the matching type.',
 [C,I],'all eight kinds of metric the registry offers',
 'The type matrix is checked by tests for a few kinds; a missing case panics or reports a wrong type at read time.',
 ['metric/registry.go','metric/common.go','metric/gauge.go','metric/cumulative.go','metric/metricdata/point.go'],[('type tags','metric/common.go')])
p('C27','The periodic metric reader starts once, stops once and flushes',
 'Starting a reader twice or with an invalid interval is an error, stopping it is idempotent and safe from several goroutines and before start, flushing a stopped or unstarted reader does not block, and after stop returns no further export happens except the final flush.',
 [S,H],'all sequences and interleavings of start, stop and flush, including on a nil reader',
 'Lifecycle races need specific interleavings.',
 ['metric/metricexport/reader.go'],[('start/stop state','metric/metricexport/reader.go')])
p('C28','The producer registry is a concurrent set',
 'Adding a producer twice registers it once, deleting removes it, unknown or nil producers are ignored, and listing returns a private copy that later changes do not affect; all operations are safe from any goroutine. Every read by a reader collects from every registered producer.',
 [S,H],'all interleavings of add, delete, list and read',
 'Set semantics under concurrency are only sampled by tests.',
 ['metric/metricproducer/manager.go','metric/metricexport/reader.go'],[('locked map','metric/metricproducer/manager.go')])
p('C29','Every served HTTP request ends its span and records its stats exactly once',
 'For every request served through the instrumented handler, a span is started and ended and the server measures are recorded exactly once, also when the wrapped handler panics or hijacks; requests designated as health checks are not sampled. The recorded status code is the one sent to the client and the recorded response size counts every body byte written by any means.',
 [I,F,H],'all handlers (panicking, writing by any optional interface, multiple header writes) and requests',
 'Tests run well-behaved handlers; panics, superfluous header writes and streaming writers are open-ended.',
 ['plugin/ochttp/server.go','plugin/ochttp/trace.go'],[('deferred end callbacks','plugin/ochttp/server.go ServeHTTP'),('tracking response writer','plugin/ochttp/server.go')])
p('C30','Every HTTP client request ends its span and records its stats exactly once',
 'For every request sent through the instrumented transport the span is ended and the client measures are recorded exactly once - on a transport error, on reading the body to its end, or at the latest on closing it (early, or after a read error) - and the wrapped body passes all bytes and errors through unchanged. Cancellation and body-less responses are handled without a panic.',
 [F,H,S],'all transport outcomes and all patterns of reading and closing the body',
 'Tests read the body fully or close it once; error and concurrent patterns are unbounded.',
 ['plugin/ochttp/trace.go','plugin/ochttp/client_stats.go','plugin/ochttp/wrapped_body.go'],[('body tracker','plugin/ochttp/trace.go, client_stats.go')])
p('C31','Wrapping preserves the optional interfaces of writers and bodies',
 'The response writer seen by a wrapped handler, and the response body seen by a client, implement exactly the same optional interfaces (flush, close-notify, hijack, read-from, push; write) as the ones they wrap, for every combination, and calls through them reach the original.',
 [C],'all 2^5 combinations of optional interfaces and all body kinds',
 'Tests try a few combinations; one wrong row silently disables streaming or breaks type switches.',
 ['plugin/ochttp/server.go','plugin/ochttp/wrapped_body.go'],[('case table of wrapper structs','plugin/ochttp/server.go wrappedResponseWriter')])
p('C32','gRPC calls are traced and measured exactly once, whatever arrives',
 'For every RPC, client and server, a span is started on begin and ended on the end event with the RPC\'s status, every sent and received payload is counted exactly once in both messages and bytes of its own direction, and the completion measures are recorded once with the method and status. Every client RPC carries the trace context of its span and the tags of its context and the server restores both, and no event with missing or nil information panics.',
 [H,S,I],'all sequences and interleavings of stats events, statuses and methods',
 'Streaming RPCs deliver concurrent events in unbounded orders; tests replay one sequence.',
 ['plugin/ocgrpc/stats_common.go','plugin/ocgrpc/trace_common.go','plugin/ocgrpc/client_stats_handler.go','plugin/ocgrpc/server_stats_handler.go'],[('per-RPC data in the context','plugin/ocgrpc/stats_common.go')])
p('C33','Status codes map consistently and completely',
 'Every HTTP status maps to the documented trace status code and every gRPC code to its canonical name, in every component that translates codes, and all components use the same numbering; unknown codes map to a generic rendering instead of failing.',
 [I],'every HTTP status and every gRPC code',
 'Tests check a subset; the mapping is a total function used in five places.',
 ['plugin/ochttp/trace.go','plugin/ocgrpc/stats_common.go','trace/status_codes.go','zpages/tracez.go'],[('translation tables','the listed files')])
p('C34','A public endpoint never joins the caller\'s trace',
 'When a server is marked as a public endpoint, the incoming trace context never becomes the parent of the server span: a new root is started and the incoming context, when present, is attached as a parent link. Otherwise a present and valid incoming context becomes the remote parent, and an absent or invalid one yields a new root.',
 [C,I],'all configurations and incoming contexts, HTTP and gRPC',
 'Trust boundary decisions depend on configuration and input combinations that tests sample.',
 ['plugin/ochttp/server.go','plugin/ocgrpc/trace_common.go'],[('public endpoint branch','both server handlers')])
p('C35','Debug pages account for every RPC view and agree with the span store',
 'Every statistic the RPC page shows is fed by a view it subscribes to and every subscribed view feeds its own statistic in the right direction (sent, received, errors, latency), page state is accessed only under its lock, and its columns show what their titles say. The latency bucket table used to query spans equals the one used to store them, a latency or error query asks the span store for exactly the bucket or code requested, and the span summary shows for every span name the counts the store reports.',
 [S,I,C],'all view data, buckets and interleavings of page rendering with stats export',
 'Rendered numbers are not compared against recorded data by any test.',
 ['zpages/rpcz.go','zpages/tracez.go','trace/spanbucket.go'],[('view-to-statistic table','zpages/rpcz.go'),('latency table','zpages/tracez.go')])
p('C36','Runtime metrics are refreshed on every read',
 'Each runtime metric the producer is configured to expose reports the runtime value of its own statistic as of the read - every exposed metric is refreshed on every read in every configuration - and concurrent readers do not race. Disabled groups are not exposed, and neither are replaced configurations or disabled collection.',
 [C,S],'all option combinations and concurrent readers',
 'A stale or swapped statistic yields a plausible number; tests check names more than values.',
 ['plugin/runmetrics/producer.go'],[('read functions','plugin/runmetrics/producer.go')])
p('C37','No lock is leaked, re-entered or acquired in conflicting order',
 'Every lock taken inside the library is released on every path out of the operation that took it, is never re-acquired by the goroutine already holding it, and any two locks are always acquired in the same order, so no sequence or interleaving of API calls can deadlock on the library\'s own locks.',
 [S,H],'all call paths and interleavings across all packages',
 'A leaked or inverted lock only hangs on specific paths or interleavings.',
 ['trace','stats/view','metric','zpages','plugin','tag'],[('mutexes','whole repository')])
p('C38','Atomically accessed state is always accessed atomically and aligned',
 'A variable that is accessed through atomic operations anywhere is never read or written plainly once shared, and 64-bit atomically accessed fields are 8-byte aligned on 32-bit platforms.',
 [S,C],'all interleavings and both 32- and 64-bit platforms',
 'Mixed access is a race on some schedules only; misalignment panics only on 32-bit builds, which the tests do not run.',
 ['trace/trace.go','metric/cumulative.go','metric/gauge.go','plugin/ocgrpc/stats_common.go','stats/internal'],[('sync/atomic users','whole repository')])
p('C39','Resource merging and detection is deterministic and non-destructive',
 'Merging two resources keeps every label of both, the first resource winning on conflicts for labels and for type, and never modifies either input; a chain of detectors merges in order and stops with the first error. Detecting from the environment decodes exactly what encoding labels writes for printable ASCII labels.',
 [I,H],'all resources, detector chains and label maps',
 'Merge tests use a few tables; input preservation and precedence are over all inputs.',
 ['resource/resource.go'],[('merge','resource/resource.go')])
p('C40','W3C trace state lists are validated and immutable',
 'A trace state holds at most 32 entries with unique, well-formed keys and values; creating one from a parent puts the new entries first, removes superseded parent entries, keeps the others in order, and never modifies the parent or the caller\'s slices. Invalid input yields an error and no trace state.',
 [I,H],'all parents and entry lists',
 'Tests check sample lists; aliasing and limits are over all inputs.',
 ['trace/tracestate/tracestate.go'],[('construction','trace/tracestate/tracestate.go')])
p('C41','Absent and nil tag maps are safe',
 'Reading, encoding, deriving from and running code under a context that carries no tag map, and every read operation on a nil tag map, never panics; an absent map behaves as an empty one.',
 [I],'all contexts, including those without a tag map',
 'Tests always start from a context they put tags into.',
 ['tag/context.go','tag/map.go','tag/profile_19.go','tag/map_codec.go'],[('FromContext users','tag')])
# not decided statically
p('N01','Probability sampling takes the requested fraction',
 'Over many traces, the probability sampler keeps the requested fraction of them, independently of the process that generated the trace ID.',
 [I,H],'distribution of trace IDs','Statistical property of a random source.',
 ['trace/sampling.go'],[('threshold on trace ID','trace/sampling.go')])
p('N02','Periodic reports keep their period',
 'Exporters of views and metrics are called once per configured reporting period.',
 [S],'timer behaviour and load','Depends on real time and scheduling.',
 ['stats/view/worker.go','metric/metricexport/reader.go'],[('tickers','the listed files')])
p('N03','Retrieved data reflects all measurements recorded before the call',
 'Data retrieved after a recording call returned includes that recording, for every interleaving of recorders (the collector linearises).',
 [S,H],'all interleavings','Ordering over a channel between goroutines; a linearizability question over histories.',
 ['stats/view/worker.go'],[('command channel','stats/view/worker.go')])
p('N04','Distribution statistics stay numerically accurate',
 'Running mean and sum of squared deviation stay within floating-point tolerance of the exact values over arbitrarily long sample sequences.',
 [I,H],'all sample sequences','Floating-point error accumulation over unbounded sequences.',
 ['stats/view/aggregation_data.go'],[('Welford update','stats/view/aggregation_data.go')])
p('N05','Debug pages render valid, escaped HTML and text',
 'Whatever span names, annotations and tags contain, the debug pages render well-formed and escaped output.',
 [I],'all span contents','Output is produced by templates interpreted at run time.',
 ['zpages/templates.go','zpages/tracez.go'],[('html/template','zpages/templates.go')])
p('N06','Instrumentation overhead is bounded',
 'Recording and span operations on unsampled paths do not allocate more than a small constant and never block on exporters.',
 [I,C],'all workloads','A performance property.',
 ['trace','stats'],[('fast paths','trace/trace.go, stats/record.go')])
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    n=d['statement'].count('. ')+1
    assert n<=3,(d['id'],n)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
