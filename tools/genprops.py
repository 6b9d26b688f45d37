#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one record per property).  Run: python3 tools/genprops.py
import json, os
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

W="stats/view/worker.go"; WC="stats/view/worker_commands.go"
p("C01","Concurrent recording loses and duplicates nothing",
 "Every measurement recorded through a call that returned is counted exactly once in every view registered on its measure before the call started, no matter how many goroutines record, read, retrieve, export or re-register at the same time. A retrieval, metric read or final report that starts after a recording and everything queued before it has been processed reflects it: a retrieval on the same meter after a record call in the same goroutine always sees that record. None of these concurrent operations races on shared memory or deadlocks.",
 ["schedules"],"all interleavings of 2-4 goroutines recording to, reading, retrieving from and registering on one meter, up to a preemption bound",
 "Tests record from one goroutine or free-run a handful of goroutines once; a lost update or a reordering needs a particular interleaving of the recorder, the worker and a reader.",
 [W,WC,"stats/record.go","stats/view/collector.go"],
 [("command channel serialises all state changes",W+": start, c"),("mutex around row updates and reads",WC+": recordReq.handleCommand; "+W+": Read")],
 [("rows","per-view map from tag signature to aggregate","stats/view/collector.go: signatures")],["view.RetrieveData","Meter.Read via metricproducer","Exporter.ExportView"])
p("C02","Snapshots are immutable and internally consistent",
 "Rows handed out by a retrieval, an exporter callback or a metric read never change afterwards, however much is recorded later; rows of different retrievals and reads are independent copies, so overwriting values in one shows in no other. Every snapshot is a state the view actually passed through: within one row count, mean, sum, min, max and bucket counts describe the same set of samples, and measurements recorded together in one call appear together in one metric read or not at all.",
 ["schedules","histories"],"all interleavings of recorders with snapshot takers up to a preemption bound, and all record/snapshot histories up to a depth",
 "Aliasing between a snapshot and live data only shows when a later record lands between taking and inspecting it; tests compare snapshots immediately.",
 ["stats/view/aggregation_data.go","stats/view/collector.go",W,"stats/view/view_to_metric.go"],
 [("clone of each aggregate on collection","stats/view/collector.go: collectedRows"),("deep copy of buckets and exemplars","stats/view/aggregation_data.go: DistributionData.clone"),("whole record command under the meter lock",WC+": recordReq.handleCommand")],
 None,["Row.Data after later records","metricdata points after later records"])
p("C03","Aggregations equal their mathematical definition",
 "For every sequence of recorded values, count, sum, last-value and distribution views report exactly the number, the sum, the most recent value, and the count, minimum, maximum, mean, sum of squared deviations and per-bucket counts of that sequence, where a value equal to a bound belongs to the bucket above it. Bucket bounds are sorted and zero bounds dropped when a view is registered, negative bounds are rejected, a distribution with n bounds has n+1 buckets, and each bucket carries as exemplar the latest sample with attachments that fell in it, with its value, time and attachments. The reported start time of a row is when its first sample was recorded.",
 ["inputs","histories"],"all sequences of values up to a length over an alphabet with negatives, zero, bound values and extremes, for several bound lists and aggregations, int and float measures",
 "Unit tests use a few hand-picked sequences of positive values; boundary, sign and order combinations are not sampled.",
 ["stats/view/aggregation_data.go","stats/view/aggregation.go","stats/view/view.go"],
 [("incremental update","stats/view/aggregation_data.go: addSample, addToBucket"),("bound normalisation","stats/view/view.go: canonicalize, dropZeroBounds")],
 None,["view.RetrieveData"])
p("C04","Rows group measurements exactly by the view's tag values",
 "A view has exactly one row per distinct combination of values of its own tag keys among the recorded measurements: two measurements share a row if and only if they agree on every tag key of the view, an absent tag counting the same as an empty one. Each row lists exactly the non-empty tags, ordered by key and with the exact recorded values, regardless of the order in which keys were declared or inserted, of tags outside the view, and of the lengths or contents of the values.",
 ["inputs"],"all assignments of values (absent, empty, short, separator-like, prefix-sharing, up to 255 bytes) to the keys of views with 0-3 keys, recorded in all pair orders",
 "Tests use one or two fixed tag maps; collisions of encoded tag signatures need adversarial combinations of lengths.",
 ["stats/view/collector.go","internal/tagencoding/tagencoding.go"],
 [("length-prefixed signature","internal/tagencoding/tagencoding.go: WriteValue, ReadValue"),("projection on the view's keys","stats/view/collector.go: encodeWithKeys, decodeTags")],
 None,["view.RetrieveData","Row.Tags"])
p("C05","View registration follows its lifecycle model",
 "Registering makes a view findable and collecting from that moment with empty data; registering a view again, or an equal definition under the same name, keeps the collected data, while a different aggregation or measure under a registered name is rejected and leaves the registered view untouched; an invalid view in a batch rejects the batch before anything is registered, and a conflicting one does not stop the valid ones. Unregistering makes it not findable and not collecting, discards its data, ignores views that are not registered, and leaves other views on the same measure unaffected. These rules hold for every history of register, unregister, record, find and retrieve calls, on any meter.",
 ["histories"],"all histories up to a depth over registering and unregistering two to four definitions that share names or measures, recording, finding and retrieving, against a map model",
 "Tests check individual transitions; state left behind by earlier operations (subscriptions, start times, measure references) shows only after particular sequences.",
 [W,WC,"stats/view/view.go"],
 [("conflict check",W+": tryRegisterView; stats/view/view.go: same"),("cleanup on unregister",WC+": unregisterFromViewReq.handleCommand; "+W+": unregisterView")],
 [("views, measures, viewStartTimes","registered views by name, by measure, and their start times",W+": worker")],["view.Find","view.RetrieveData","Register errors"])
p("C06","Registered view exporters get every period's data, nobody else does",
 "At every reporting tick, and when a view is unregistered, each exporter registered at that time receives once, for each registered view, the view's definition, the time collection of it started, the current time as end, and all its current rows; calls to exporters are never made concurrently. Data is cumulative across ticks. No callback for a view happens after unregistering that view returned, none to an exporter after unregistering that exporter returned, and changing the reporting period takes effect from the moment the call returns. A delivered report does not change afterwards.",
 ["schedules","histories"],"all interleavings of ticks with recording, view and exporter registration and period changes up to a preemption bound, and all such histories up to a depth, under a virtual clock",
 "Tests run real timers with one exporter; they cannot place a tick between two arbitrary steps of an unregistration.",
 [W,WC,"stats/view/export.go"],
 [("reporting on the worker goroutine",W+": start, reportUsage, reportView"),("exporter registry under its own mutex",W+": RegisterExporter, UnregisterExporter"),("ticker replacement acknowledged before returning",WC+": setReportingPeriodReq.handleCommand")],
 None,["Exporter.ExportView calls"])
p("C07","Views convert faithfully to metrics",
 "Reading a meter as a metric producer yields exactly one metric for each registered view that has data, and none for others: its name and description are the view's, its type and unit follow from aggregation and measure, its label keys are the view's sorted tag keys, its resource is the one set on the meter. There is one time series per row, with one label value per label key in key order, present exactly for the tags of the row, one point stamped with the time of the read whose value equals the row's aggregate, and the row's start time. What a read returned does not change with later records and reads.",
 ["inputs","configurations"],"every combination of measure kind, unit, aggregation, tag key set, tag presence and a set of value sequences, against an independent conversion",
 "Tests check a table of individual views; combinations with absent tags, several rows and later reads are not covered.",
 ["stats/view/view_to_metric.go",W,"stats/view/aggregation_data.go"],
 [("descriptor derivation","stats/view/view_to_metric.go: viewToMetricDescriptor, getType, convertUnit"),("row conversion","stats/view/view_to_metric.go: rowToTimeseries, toLabelValues")],
 None,["metricproducer Manager.GetAll / Producer.Read"])
p("C08","Meters are isolated and start and stop cleanly",
 "Views, data, exporters and resources of one meter are never affected by operations on another, including the default one, and a measurement reaches exactly the meter it was recorded to. From Start until Stop a meter is listed as a metric producer, after Stop it is not, and no reporting happens afterwards. Stop always returns, may be called repeatedly or concurrently, and a record, registration or lookup racing with or following Stop returns instead of panicking or blocking forever.",
 ["schedules","histories"],"all interleavings of Start, Stop, Record, Register, Find and ticks on one or two meters up to a preemption bound",
 "Tests stop meters only when idle; the failure modes are races between shutdown and late calls.",
 [W,WC,"metric/metricproducer/manager.go","stats/record.go"],
 [("quit/done handshake",W+": Stop, start"),("recorder option","stats/record.go: RecordWithOptions")],
 None,["metricproducer.GlobalManager().GetAll","return of calls","ExportView calls"])
p("C09","Recording applies its options and measures are shared by name",
 "Recording with mutators tags the measurements with the context's tags as changed by the mutators, without changing the context; if a mutator fails, the error is returned and nothing is recorded; attachments reach exemplars; measurements of measures no view uses, and empty calls, record nothing. Creating a measure twice under one name yields handles to the same measure, from any number of goroutines, keeping the first definition, and every measurement made through either handle reaches views registered on either.",
 ["schedules","inputs"],"all combinations of recording entry point, options, mutator outcomes and measure subsets, and all interleavings of concurrent measure creation, subscription and recording up to a preemption bound",
 "Tests exercise each option once, sequentially.",
 ["stats/record.go","stats/measure.go","stats/measure_int64.go","stats/measure_float64.go"],
 [("measure registry under a mutex","stats/measure.go: registerMeasureHandle"),("subscription flag","stats/measure.go: subscribe, subscribed"),("option application","stats/record.go: RecordWithOptions")],
 None,["view.RetrieveData","returned errors"])
p("C10","Tag maps are immutable and mutators follow their definition",
 "Applying mutators to a context yields a new context whose tag map is the old one changed in order by each mutator - insert only if absent, update only if present, upsert always, delete - while the tag map of the original context and of every other derived context stays unchanged. Keys that are empty or not at most 255 printable ASCII characters cannot be created; a mutator whose value is not at most 255 printable ASCII characters fails, and then an error is returned together with the context as it was. Running a function under profiler labels adds exactly the tags of the context as labels.",
 ["histories","inputs"],"all mutator sequences up to a depth over a small set of keys and valid and invalid values, split in every way over one or several derivations, against a map model",
 "Tests check single mutators from fixed maps; aliasing between parent and derived maps appears only with branching derivations.",
 ["tag/map.go","tag/context.go","tag/key.go","tag/validate.go","tag/profile_19.go","tag/metadata.go"],
 [("copy on New","tag/map.go: New"),("validation","tag/validate.go: checkKeyName, checkValue"),("mutator semantics","tag/map.go: insert, update, upsert, delete")],
 None,["tag.FromContext(...).Value, String","pprof labels"])
p("C11","Tag map encoding round-trips and decoding is total",
 "Decoding the encoding of any tag map gives back exactly its propagatable tags, and tags marked as not to be propagated never appear in an encoding. Decoding arbitrary bytes never panics or reads outside its input: it returns either an error and no map at all or a map of valid keys and values exactly as the documented wire format prescribes. Results depend on the arguments alone, whatever was called before or at the same time, and stay as given.",
 ["inputs"],"all byte strings up to a length over a format-aware alphabet, all single-byte edits and truncations of valid encodings, and all maps over small key and value sets including maximal lengths",
 "Tests decode a few fixed buffers; malformed varints, truncations at every offset and oversized lengths are unsampled.",
 ["tag/map_codec.go","tag/metadata.go"],
 [("bounds-checked reads","tag/map_codec.go: readBytesWithVarintLen and callers"),("TTL filter","tag/map_codec.go: Encode")],
 None,["tag.Encode","tag.Decode","tag.DecodeEach"])
T="trace/trace.go"
p("C12","Span parentage and sampling decisions follow the rules",
 "A new span has its parent's trace ID, trace state and parent span ID, and a fresh non-zero span ID, a root span a fresh non-zero trace ID and no parent, whatever mixture of local, remote and missing parents it is started from. Its sampling bit is inherited from a local parent unless the start options give a sampler; a root span or a span with a remote parent asks the option's sampler, or else the configured default one, passing it the actual parent context, trace ID, span ID, name and remoteness, and adopts the answer. Only sampled spans are ever exported, with the kind, name and remote-parent flag given at start.",
 ["configurations","histories"],"all trees up to a depth over parent kinds, sampling bits, samplers given or configured, span kinds and remote contexts, against a reference decision function",
 "Tests check selected combinations; the product of parent kind, sampler source and parent bit is not covered.",
 [T,"trace/sampling.go","trace/config.go"],
 [("decision in span creation",T+": startSpanInternal"),("context propagation",T+": StartSpan, StartSpanWithRemoteParent, FromContext, NewContext")],
 None,["Span.SpanContext","SpanData delivered to exporters","SamplingParameters seen by a sampler"])
p("C13","Each ended sampled span is exported exactly once",
 "When a sampled span is ended, each trace exporter registered at that moment receives its data exactly once, before End returns, no matter how often or from how many goroutines End is called; an exporter registered throughout the call is never skipped because others are being registered or unregistered concurrently. A span that is never ended or not sampled is not exported, and an exporter that was never registered, or whose unregistration returned before the span was ended, is not called. An exporter may itself start and end spans and change the registered exporters.",
 ["schedules","histories"],"all interleavings of concurrent End, exporter registration, unregistration and span mutation up to a preemption bound",
 "Tests end spans from one goroutine with a stable exporter set.",
 [T,"trace/export.go"],
 [("end-once",T+": End, endOnce"),("copy-on-write exporter set","trace/export.go: RegisterExporter, UnregisterExporter")],
 [("exporters","current exporter set","trace/export.go: exporters")],["Exporter.ExportSpan calls"])
p("C14","Exported span data is a faithful, bounded history of the span",
 "The exported data of a span holds the attributes, annotations, message events and links set on it before it ended, in order, with their values and times, plus its status, name, kind, child count and start and end times. When a configured limit is exceeded, attributes least recently set and annotations, message events and links first added are discarded, the most recent ones kept, and the number discarded reported exactly; observing the span while it is active changes none of this. What was exported never changes afterwards, and for unsampled spans nothing is kept.",
 ["histories","configurations"],"all operation sequences up to a depth on a span over small key sets and limits of 0-3, with and without observation of active spans, against a list model",
 "Tests exercise each limit separately with one fill pattern; interactions of overwrite, eviction and observation are unsampled.",
 [T,"trace/evictedqueue.go","trace/lrumap.go","trace/basetypes.go"],
 [("bounded queues","trace/evictedqueue.go"),("LRU attributes","trace/lrumap.go"),("snapshot",T+": makeSpanData")],
 None,["SpanData delivered to exporters"])
p("C15","Spans and trace configuration are safe for concurrent use",
 "Any number of goroutines may add attributes, annotations, events, links, status and children to the same span, read its context, end it, and change the trace configuration at the same time without data race, deadlock or panic: the exported data contains each operation that completed before End was called and nothing torn, and the child count equals the number of local children started. Concurrent configuration changes to different settings all take effect, fields not given keep their value, and each span uses one configuration for its sampler and limits. All operations on a nil span or on a span of an empty context are harmless.",
 ["schedules"],"all interleavings of 2-3 goroutines operating on one span or on the configuration up to a preemption bound, with happens-before race detection on each",
 "The concurrency of span mutation is not exercised by tests beyond single free runs.",
 [T,"trace/config.go"],
 [("span mutex",T+": span.mu"),("copy-on-write configuration","trace/config.go: ApplyConfig")],
 None,["SpanData delivered to exporters","race reports"])
p("C16","Generated identifiers are unique, non-zero and well formed",
 "No two spans of a process get the same span ID and no two root spans the same trace ID, for whatever seed randomness the process drew and however many goroutines start spans at once; neither is ever zero. A configured identifier generator is used instead for all new identifiers once configured.",
 ["schedules","inputs"],"all interleavings of 2-3 goroutines starting root and child spans up to a preemption bound, for a set of adversarial seeds (all zero, all ones, wrap-around near zero, even increments)",
 "Uniqueness under a race is not testable by sampling; adversarial seeds are never drawn.",
 [T,"trace/config.go"],
 [("odd increment and atomic add",T+": idGenerator.NewSpanID"),("locked random trace ids",T+": idGenerator.NewTraceID"),("seeding",T+": init")],
 None,["Span.SpanContext"])
p("C17","Probability sampling is deterministic, monotone and keeps sampled parents",
 "A probability sampler always samples a span whose parent is sampled, and otherwise decides from the trace ID alone: the same trace ID always gets the same answer, a trace ID sampled at one fraction is sampled at every larger one, fractions at or below 0 sample no unsampled-parent span, fractions at or above 1 sample all, and the boundary is exactly the documented comparison of the trace ID's leading 63 bits with the fraction. The always and never samplers answer always and never.",
 ["inputs"],"all trace IDs over a boundary-value byte alphabet, both parent bits, remote or not, and a chain of fractions including 0, 1, negatives, tiny values and each ID's own threshold",
 "Tests draw random IDs and check a frequency band.",
 ["trace/sampling.go"],[("threshold comparison","trace/sampling.go: ProbabilitySampler")],None,["SamplingDecision"])
p("C18","The local span store reports exactly active, latency and error samples",
 "With local span collection enabled, the store lists as active exactly the spans started and not yet ended of each name, and keeps ended spans without error by latency bucket and spans with an error status by code, at most the configured number per bucket, newest first evicting oldest, admitting at most one per second and bucket. Counts in summaries, retrieval by latency range or error code and the active list agree with this for every history, including reconfiguration of bucket sizes, and names never configured explicitly. An answer handed out does not change afterwards.",
 ["histories","schedules"],"all histories up to a depth of starting, ending with chosen latency and status, querying, resizing and enabling, under a virtual clock, against a list model, and interleavings of ends, queries and reconfiguration up to a preemption bound",
 "Tests check one span per bucket with real time; rate admission, resizing and wrap-around sequences need controlled time.",
 ["trace/spanstore.go","trace/spanbucket.go","internal/traceinternals.go"],
 [("bucket ring","trace/spanbucket.go"),("store mutexes","trace/spanstore.go")],
 None,["internal trace ReportSpansPerMethod/ReportActiveSpans/ReportSpansByLatency/ReportSpansByError"])
p("C19","Binary span context propagation round-trips and parses exactly",
 "Encoding a span context in the binary format and decoding it gives back the same trace ID, span ID and options, and the encoding has exactly the documented layout. Decoding arbitrary bytes never panics and succeeds exactly for inputs that the documented format accepts - version 0 with a trace ID, then optionally span ID and options in this order, anything after that ignored - with exactly the encoded fields, missing ones zero. The zero span context encodes to nothing. Results depend on the arguments alone, whatever was called before or at the same time, and stay as given.",
 ["inputs"],"all byte strings over a format-aware alphabet up to a length, every truncation, extension and single-byte substitution of valid encodings, and boundary span contexts, against an independent parser",
 "Tests decode a table of inputs.",
 ["trace/propagation/propagation.go"],[("field parsing","trace/propagation/propagation.go: FromBinary, Binary")],None,["propagation.Binary","propagation.FromBinary"])
p("C20","B3 header propagation round-trips and parses exactly",
 "A span context written to a request as B3 headers and read back gives the same trace ID, span ID and sampling bit. Reading any header values never panics and accepts exactly valid identifiers: hexadecimal of up to 16 bytes for the trace ID, up to 8 bytes for the span ID, shorter ones taken as left-padded with zeros, an odd number of digits or a missing identifier rejected; the first value of a header counts and the sampled flag is set exactly for the values 1 and true. Results depend on the arguments alone, whatever was called before or at the same time, and stay as given.",
 ["inputs"],"all combinations of present, absent, empty, short, padded, over-long, odd-length, upper-case, zero and non-hexadecimal header values, and boundary span contexts, against an independent parser",
 "Tests use a table of full-length headers.",
 ["plugin/ochttp/propagation/b3/b3.go"],[("parsers","plugin/ochttp/propagation/b3/b3.go: ParseTraceID, ParseSpanID, ParseSampled")],None,["HTTPFormat.SpanContextFromRequest","HTTPFormat.SpanContextToRequest"])
p("C21","W3C trace context propagation round-trips and parses exactly",
 "A span context written to a request as trace context headers and read back gives the same trace ID, span ID, sampling bit and trace state entries in order. Reading arbitrary headers never panics and accepts exactly well-formed parents: two-digit version other than ff, 16-byte trace ID and 8-byte span ID in hexadecimal, neither all zero, two hexadecimal digits of flags, no extra fields for version 00, and exactly one such header; a malformed trace state or one of more than 512 characters is dropped without rejecting the parent. Writing replaces whatever the request's headers said before. Results depend on the arguments alone, whatever was called before or at the same time, and stay as given.",
 ["inputs"],"all field-wise combinations of valid, truncated, over-long, zero, upper-case and non-hexadecimal parts for several versions and separators, and trace states from a structural alphabet, against an independent parser",
 "Tests use a table of headers.",
 ["plugin/ochttp/propagation/tracecontext/propagation.go","trace/tracestate/tracestate.go"],[("parsers","plugin/ochttp/propagation/tracecontext/propagation.go: SpanContextFromHeaders, tracestateFromHeader"),("serialisers","same file: SpanContextToHeaders")],None,["HTTPFormat.SpanContextFromRequest","HTTPFormat.SpanContextToRequest"])
p("C22","Trace state updates keep order, uniqueness, bounds and the parent intact",
 "Deriving a trace state puts the new entries first in the order given, followed by the parent's entries without the overridden keys, and never changes the parent. It fails, producing nothing, exactly if a key or value is malformed, a key occurs twice in the new entries, or more than 32 entries would result. Results depend on the arguments alone, whatever was called before or at the same time, and stay as given.",
 ["histories","inputs"],"all derivation histories up to a depth over small key sets, plus all short keys and values over a boundary alphabet and all sizes around 32 entries and 256 characters, against a list model",
 "Tests use a table of single derivations.",
 ["trace/tracestate/tracestate.go"],[("derivation","trace/tracestate/tracestate.go: New, add"),("validation","trace/tracestate/tracestate.go: isValid")],None,["Tracestate.Entries"])
p("C23","Stackdriver header propagation round-trips and parses exactly",
 "A span context written to a request as the Google Cloud trace header and read back gives the same trace ID, span ID and options. Reading any header value never panics, and yields a context only if it is a 32-digit hexadecimal trace ID, a slash, a decimal span ID and optionally 32-bit decimal options after ;o= (other text after the semicolon is ignored), and at most 200 characters long. Results depend on the arguments alone, whatever was called before or at the same time, and stay as given.",
 ["inputs"],"all combinations of valid, missing, over-long, non-numeric, overflowing and misplaced parts, every truncation of a valid header, and boundary span contexts, against an independent parser",
 "Tests use a handful of headers.",
 ["exporter/stackdriver/propagation/http.go"],[("parser","exporter/stackdriver/propagation/http.go: SpanContextFromRequest")],None,["HTTPFormat.SpanContextFromRequest","HTTPFormat.SpanContextToRequest"])
p("C24","Concurrent gauge and cumulative updates are atomic and never lost",
 "Any number of goroutines may set, add, increment and read entries of gauges and cumulatives, create entries and metrics, and read the registry at once without race or deadlock: every addition counts exactly once, each read point is a value the entry held during the read, an entry once obtained is never absent from a later or concurrent read, and concurrent requests for the same label values get the same entry. A cumulative never decreases under any mixture of sets and increments. The function of a derived metric may itself use other metrics.",
 ["schedules"],"all interleavings of 2-3 goroutines updating, creating and reading on one registry up to a preemption bound, with happens-before race detection",
 "Tests are sequential; lost updates need a preemption between load and compare-and-swap.",
 ["metric/gauge.go","metric/cumulative.go","metric/common.go","metric/registry.go"],
 [("atomic or locked value updates","metric/gauge.go, metric/cumulative.go: Add, Set, Inc"),("load-or-store of entries","metric/common.go: entryForValues, upsertEntry")],
 None,["Registry.Read","entry handles"])
p("C25","A metric registry reads back exactly what was added and set",
 "Reading a registry returns exactly the metrics added to it, each with its name, description, unit, kind and label keys, and one time series per label combination with the value last set or accumulated (zero while a plain metric is below zero), read now, and for cumulatives the time the metric was added as start. Label combinations are distinct exactly if they differ in any label's presence or text; constant labels precede variable ones; a wrong number of label values, a missing function, or re-adding a name with another kind is an error that changes nothing, and re-adding it with the same kind starts the metric anew. Function-backed entries report what their function returns at read time.",
 ["histories","inputs"],"all histories up to a depth of adding, entry creation, updates, derived functions and reads over small name and label alphabets (absent, empty, separator-like, long), all eight kinds, against a map model",
 "Tests check each kind separately with one or two labels.",
 ["metric/registry.go","metric/common.go","metric/gauge.go","metric/cumulative.go","internal/tagencoding/tagencoding.go"],
 [("label encoding","metric/common.go: encodeLabelVals, decodeLabelVals"),("type check on re-adding","metric/registry.go: initBaseMetric")],
 None,["Registry.Read"])
p("C26","The producer manager is a race-free set",
 "The set of metric producers contains each producer added and not since deleted exactly once, adding twice or deleting an unknown or nil one changes nothing, and a listing is a private copy reflecting every operation that returned before it, for every history and every interleaving of additions, deletions and listings.",
 ["schedules","histories"],"all histories up to a depth over three producers and all interleavings of 3 goroutines up to a preemption bound, linearizability-checked against a set",
 "Tests are sequential.",
 ["metric/metricproducer/manager.go"],[("mutex and copy","metric/metricproducer/manager.go")],None,["Manager.GetAll"])
p("C27","Metric export reads everything and the interval reader starts and stops cleanly",
 "One export pass reads every currently registered producer exactly once and hands the exporter one batch of exactly their metrics, which later passes do not touch, in a context with a span of the reader's span name, whether or not the exporter fails. A started interval reader makes one pass per interval and none once Stop returned, until started again; Flush makes one pass if the reader is not running and none otherwise. Starting twice, intervals below a second, or a missing exporter or reader are errors. Starting, flushing and stopping may be repeated and raced in any order without deadlock, panic, race or concurrent passes of one reader. An exporter may use other readers.",
 ["schedules","histories"],"all histories up to a depth of start, stop, flush, tick, producer and interval changes and all their interleavings in 2-3 goroutines up to a preemption bound, under a virtual clock",
 "Tests run a real clock and one order of calls.",
 ["metric/metricexport/reader.go","metric/metricexport/export.go"],
 [("start/stop handshake","metric/metricexport/reader.go: Start, Stop, startInternal"),("export pass","metric/metricexport/reader.go: ReadAndExport")],
 None,["Exporter.ExportMetrics calls","return of calls"])
p("C28","Runtime metrics are produced by at most one producer and are coherent",
 "Enabling runtime metrics registers exactly one producer, replacing an earlier one, and disabling removes it, in any order, repetition or interleaving of calls: never is more than one registered, and the calls take effect atomically. Every read yields each metric of the enabled groups exactly once, with the configured prefix, its fixed unit, type and description (cumulatives where derived cumulatives are asked for), and all memory values are those of one snapshot of the runtime's statistics taken during the read, also when reads run at once, which is race free.",
 ["schedules","configurations"],"all option combinations, all enable/disable/read histories up to a depth and interleavings of 2-3 goroutines up to a preemption bound",
 "Tests enable and read once per configuration.",
 ["plugin/runmetrics/producer.go"],[("single producer under a mutex","plugin/runmetrics/producer.go: Enable, Disable")],None,["metricproducer.GlobalManager","Producer.Read"])
p("C29","Instrumented HTTP clients report each request once and correctly",
 "For every request sent through the instrumented transport, exactly one client span is ended and one set of statistics recorded, when the response body is exhausted, fails or is closed or the transport fails, with method, host, path, status, request and response sizes and latency as they were and the span status mapped from the outcome. The response, body bytes, errors and body capabilities reach the caller unchanged, the caller's request is not modified, and the wire request carries the span's context in the configured format, and the span and the method, host and path tags in its Go context; health-check requests are neither traced nor counted.",
 ["fault_sequences","inputs"],"all sequences of body read results (short, data with EOF, zero, error), closes and transport outcomes up to a depth, for all statuses, request sizes, formats and option combinations, with a scripted transport",
 "Tests use a real server and full reads; orders such as error, then close, then read again are unsampled.",
 ["plugin/ochttp/client.go","plugin/ochttp/client_stats.go","plugin/ochttp/trace.go","plugin/ochttp/stats.go","plugin/ochttp/wrapped_body.go"],
 [("end once","plugin/ochttp/client_stats.go: tracker.end"),("body wrappers","plugin/ochttp/trace.go: bodyTracker; plugin/ochttp/wrapped_body.go")],
 None,["views over client measures","exported spans","request seen by the base transport"])
p("C30","Instrumented HTTP handlers report each request once and correctly",
 "For every request served by the instrumented handler, exactly one server span is ended and one set of statistics recorded, also if the handler panics, with the method, path, host, route, final status, request and response sizes and latency as they were; the panic still propagates. The span continues the propagated context, or for public endpoints starts a new trace linked to it; the response writer offers exactly the optional interfaces the original offers and forwards every call; health-check requests are not traced.",
 ["configurations","histories"],"all sequences of handler actions (headers, statuses, writes, read-from, flush, panic) up to a depth, all 32 combinations of optional interfaces, and all option combinations, with a scripted response writer",
 "Tests cover a few interface combinations and single actions.",
 ["plugin/ochttp/server.go","plugin/ochttp/route.go","plugin/ochttp/trace.go"],
 [("tracking response writer","plugin/ochttp/server.go: trackingResponseWriter"),("deferred ends","plugin/ochttp/server.go: ServeHTTP")],
 None,["views over server measures","exported spans","the wrapped writer"])
p("C31","gRPC handlers account each RPC once and exactly",
 "For every RPC observed by the client or server stats handler, whatever the order and number of message events, exactly one completion is recorded when it ends with the numbers of messages and bytes sent and received, the time elapsed from tagging the RPC to its end, the method and the status of the outcome (for methods that are valid tag values), started RPCs are counted when they begin, and one span of the right kind is ended with the mapped status and its message events. Events of unrelated or untagged contexts are ignored, and concurrently delivered events of an RPC are all counted without race. An RPC made with the context of another one is accounted for by itself.",
 ["histories","schedules","fault_sequences"],"all event sequences up to a depth with payload sizes and every status code or non-status error, on both sides, and interleavings of concurrently delivered payload events up to a preemption bound",
 "Tests replay a few fixed event lists sequentially.",
 ["plugin/ocgrpc/stats_common.go","plugin/ocgrpc/trace_common.go","plugin/ocgrpc/client_stats_handler.go","plugin/ocgrpc/server_stats_handler.go"],
 [("per-RPC counters","plugin/ocgrpc/stats_common.go: rpcData"),("status mapping","plugin/ocgrpc/stats_common.go: statusCodeToString; plugin/ocgrpc/trace_common.go: traceHandleRPC")],
 None,["default client and server views","exported spans"])
p("C32","gRPC handlers propagate tags and trace context end to end",
 "Tags and span context put on an outgoing RPC by the client handler are recovered by the server handler from the wire: same propagatable tags plus the server's method tag, and a server span that is a child of the client span with its sampling decision, or, for public endpoints, a new trace linked to it. Missing, malformed or foreign wire data yields a fresh root span and no tags, never a failure, and other outgoing metadata of the caller is preserved.",
 ["inputs","configurations"],"all combinations of tag maps, span contexts, public-endpoint setting, span kinds, start options and present, missing or damaged wire fields, on the real client and server handlers back to back",
 "Tests check one well-formed exchange.",
 ["plugin/ocgrpc/trace_common.go","plugin/ocgrpc/client_stats_handler.go","plugin/ocgrpc/server_stats_handler.go","plugin/ocgrpc/client.go","plugin/ocgrpc/server.go"],
 [("client side","plugin/ocgrpc/trace_common.go: traceTagRPC; client_stats_handler.go: statsTagRPC"),("server side","plugin/ocgrpc/trace_common.go; server_stats_handler.go: statsTagRPC")],
 None,["contexts returned by TagRPC","outgoing metadata"])
p("C33","Resource labels encode, decode, merge and detect by their rules",
 "Decoding the encoding of any label map, empty or with keys and values of up to 256 printable ASCII characters (no equals sign directly before a quote, no blank at the start and no quote-comma inside a key), gives back the same map; encoding is independent of map order. Decoding arbitrary text never panics and returns exactly the labels of a comma-separated list of key=quoted-value pairs, or an error and no labels. Merging detector results keeps the first type that is set and, for each label, the first value, and modifies no detector's result; detectors run in order with the caller's context, and the first error is returned alone. The environment detector reads type and labels by the same rules. Results depend on the arguments alone, whatever was called before or at the same time, and stay as given.",
 ["inputs"],"all label maps over small key and value alphabets with quotes, commas, backslashes, blanks and non-ASCII characters, all short strings for decoding, and all detector result sequences up to a length, against a reference",
 "Tests check a few round trips.",
 ["resource/resource.go"],[("codec","resource/resource.go: EncodeLabels, DecodeLabels"),("merge","resource/resource.go: merge, MultiDetector")],None,["resource.EncodeLabels","resource.DecodeLabels","resource.MultiDetector"])
p("C34","Diagnostic pages show what was recorded",
 "The text summary of spans lists, for each span name, the same numbers of active, per-latency and error samples that its detail listings show, for every history of spans, and each listing shows exactly the kept spans of that name and bucket (or error code), each with its identity, start, elapsed time, status, attributes and events in order. After an export, the total columns of the RPC statistics text page equal, per method and direction, the RPCs, errors, rates of RPCs and bytes, and average latency recorded so far (hour and minute columns are documented as unsupported). The HTML pages show the same listings and numbers, each number linked to its listing. Any query parameters give a complete, escaped HTML page, never a panic, and pages can be rendered while spans and RPCs are running, without race.",
 ["histories","inputs","schedules"],"all histories up to a depth of spans of two names with chosen latency and status, of span events, and of recorded RPCs under a virtual clock, all combinations of query parameter values from a list, and all interleavings up to a preemption bound of page rendering with recording",
 "Tests render one page.",
 ["zpages/tracez.go","zpages/rpcz.go","zpages/zpages.go"],
 [("summary","zpages/tracez.go: traceSpans, getSummaryPageData"),("RPC snapshots","zpages/rpcz.go: snapExporter")],None,["rendered text pages"])

p("C35","Connection events of HTTP requests are annotated on their span",
 "For every sequence and interleaving of connection events (DNS lookup, connect, connection obtained, TLS handshake, headers and request written, 100-continue, first response byte) delivered to the client trace made by NewSpanAnnotatingClientTrace or NewSpanAnnotator for a span, each event leaves exactly one annotation, in order, with its own message and exactly the event's own values as attributes (errors, addresses, reuse, idleness), on the given span while it is recording and within its annotation limit; nothing else of the span changes, and spans that are nil, unsampled or ended make the events harmless. A Transport with such a trace still delivers every event to the trace the caller put on the request. Hooks may be called concurrently with each other and with the span's end without race.",
 ["inputs","histories","schedules"],"all sequences up to a depth of events with chosen values on spans of each kind, all subsets of events of one request through a Transport, and all interleavings of hooks with each other and with the end of the span",
 "No test delivers events with errors, in other orders than one connection's, or concurrently.",
 ["plugin/ochttp/span_annotating_client_trace.go","plugin/ochttp/client.go","plugin/ochttp/trace.go"],
 [("hooks","plugin/ochttp/span_annotating_client_trace.go: spanAnnotator"),("attachment to requests","plugin/ochttp/trace.go: traceTransport.RoundTrip")],None,["exported span data","the caller's own client trace"])

p("C36","The tracer and the span implementation can be replaced",
 "Package-level trace functions hand each call, with exactly its arguments, to the tracer that is DefaultTracer at that time, once, and return what it returns. A Span made by NewSpan from a custom implementation forwards each operation exactly once with its arguments - changes to the span are dropped when the implementation says it is not recording, everything else always passes - and Internal gives the implementation back. FromContext returns the span of the nearest enclosing NewContext, or nil. The built-in tracer takes a custom span in the context as a local parent, inheriting its trace ID, options and tracestate, without changing it.",
 ["inputs","histories"],"every operation with every combination of chosen arguments on implementations of both kinds, all histories up to a depth of nested contexts with built-in and custom spans, and of changes of DefaultTracer",
 "The tests forward a few operations once.",
 ["trace/trace_api.go","trace/trace.go"],
 [("forwarding","trace/trace_api.go: Span"),("replaceable tracer","trace/trace_api.go: DefaultTracer")],None,["calls seen by the replacement","returned values"])

p("C37","The in-memory metric exporter returns each series' latest point",
 "After any history of exports to an Exporter of package metric/test, GetPoint(name, labels) returns the last point exported for exactly the time series of that metric name and label set (labels that are not present are left out; order does not matter), and nothing for a series that was never exported, for all metric names, label keys and label values. ReadAndExport makes the current points of every registered producer available, including the effect of every stats.Record call that returned before it.",
 ["inputs","histories"],"all pairs of series over an alphabet of names, keys and values that run into each other, and all histories up to a depth of recordings, registrations and reads",
 "The test reads three points of distinct metrics.",
 ["metric/test/exporter.go"],
 [("signature of a series","metric/test/exporter.go: labelSignature"),("flush before reading","metric/test/exporter.go: ReadAndExport")],None,["GetPoint results"])

p("C38","The plugins' predefined views show what their names and tags promise",
 "Each predefined view of plugin/ochttp and plugin/ocgrpc, and each list of default views, can be registered, alone or with others, and for every history of HTTP requests (through a Transport and a Handler) and RPCs (client and server) made since, it shows under its documented name exactly one row per combination of values of its tag keys that occurred, with the number of requests or RPCs, or the distribution of their bytes, messages or latencies over the documented bucket bounds. Registering a list registers exactly its views, and retrieved counts never decrease while requests run.",
 ["histories","inputs","schedules"],"all histories up to a depth over an alphabet of requests and RPCs of both directions, every single view, list and pair of views registered at three moments, values at, just below and just above every bucket bound, and all interleavings up to a preemption bound of registration and retrieval with a request and an RPC",
 "Tests look at a few rows of some of the views; no test looks at the bounds.",
 ["plugin/ochttp/stats.go","plugin/ocgrpc/client_metrics.go","plugin/ocgrpc/server_metrics.go","plugin/ocgrpc/stats_common.go"],
 [("views","plugin/ochttp/stats.go, plugin/ocgrpc/*_metrics.go: view variables"),("bounds","plugin/ocgrpc/stats_common.go: Default*Distribution; plugin/ochttp/stats.go: Default*Distribution")],None,["rows retrieved from the predefined views"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
