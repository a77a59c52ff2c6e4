#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

p("C01", "Each label group owns exactly one independent metric",
  "For every history of updates and lookups on a labelled metric collection, the value exported for a label group equals the value a plain map from label values to metric states would hold after the same history. Updating one label group never changes another; a label group that was touched is exported exactly once, and one that was never touched is not exported. This holds for every kind and size of label set, and whether a metric is reached through the collection's own update methods, a looked-up or previously saved identifier, or exclusive access.",
  ["histories", "inputs"], "all op histories over counters, gauges, float gauges and histograms keyed by static, pre-loaded, dynamic, composed and shared label sets, from one label group to thousands",
  "Tests drive a handful of label groups (at most 192) with a fixed op order and mostly do not read the values back; aliasing between label groups needs particular set sizes, field mixes, hash-table growth or id reuse.",
  ["core/src/metric.rs", "core/src/metric/sparse.rs", "core/src/metric/counter.rs", "core/src/metric/gauge.rs", "core/src/label/group.rs", "derive/src/label_group/to_tokens.rs"],
  [("index/hash lookup of an encoded label id", "core/src/metric.rs MetricVec::try_with_labels / VecInner::get_metric"), ("sharded hash table", "core/src/metric/sparse.rs ShardedMap"), ("mixed-radix label encoding", "derive/src/label_group/to_tokens.rs SetEncode/SetDecode")],
  ["text scrape of the collection", "get_metric"],
  [dict(name="metrics", meaning="per-label cells, a slice or a sharded table", where="core/src/metric.rs VecInner")])

p("C02", "Storage representation is not observable",
  "The same history of updates applied to collections built with the default, forced-dense and forced-sparse constructors gives the same set of exported samples, the same lookup successes and failures and the same cardinality report. Only sample order and the ability to remove a metric may differ. Exclusive-access updates have the same effect as the equivalent shared ones.",
  ["histories", "configurations"], "all op histories and label-set sizes, including both sides of the default dense/sparse switch-over",
  "Tests never compare two representations on the same history and never get near the size where the default switches.",
  ["core/src/metric.rs", "core/src/metric/sparse.rs"],
  [("representation choice by cardinality", "core/src/metric.rs with_label_set_and_metadata"), ("dense index / sparse hash", "core/src/metric.rs try_with_labels")],
  ["text scrape", "get_cardinality", "try_with_labels"])

p("C03", "Removal, pre-initialisation and cardinality are exact",
  "Removing a label group from a sparse collection returns exactly the state accumulated since it was last created, makes that label group and no other disappear from export, and a later use starts again from the initial state; removing an absent label group, or anything from a dense collection, returns nothing and changes nothing. Pre-initialising a dense collection makes every label group exportable in its initial state without altering the ones already in use, and does nothing to a sparse one. The reported lower cardinality bound is always the number of label groups currently exported, and the upper bound is the label set's cardinality when that is known.",
  ["histories"], "all interleavings of update, save id, remove, re-create, pre-initialise, count and scrape",
  "The only removal tests remove each key once after a fixed prefix, and pre-initialisation has no test at all.",
  ["core/src/metric.rs", "core/src/metric/sparse.rs"],
  [("remove_metric", "core/src/metric/sparse.rs"), ("init_all_dense / get_cardinality", "core/src/metric.rs")],
  ["remove_metric", "get_cardinality", "init_all_dense", "text scrape"])

p("C04", "Label encoding is a bijection that rejects outsiders",
  "For every label set (compile-time, pre-loaded, dynamic, derived groups of these in any field order, composed, or behind a shared pointer) encoding a contained label group and decoding the result gives the same label group back, and different label groups get different codes. A set with a known cardinality N uses exactly the dense codes 0..N, each decoding to a distinct label group that encodes back to it; N is the product of the parts' sizes, and is unknown when a part is dynamic or the product does not fit. A label group with a value outside a fixed part is reported as not contained, and looking it up creates no metric.",
  ["inputs", "configurations"], "all label sets and all label values inside and outside them",
  "Tests use one 3x4 set, one 2x3 composition and five keywords; mixed-radix errors appear only for particular size and field-kind combinations.",
  ["core/src/label/impls.rs", "core/src/label/group.rs", "core/src/label/value.rs", "derive/src/label_group/to_tokens.rs"],
  [("mixed-radix encode/decode", "derive/src/label_group/to_tokens.rs"), ("composed dense index", "core/src/label/group.rs ComposedGroup"), ("set lookups", "core/src/label/impls.rs")],
  ["LabelGroupSet::{encode,decode,encode_dense,decode_dense,cardinality}", "LabelSet::{encode,decode,dynamic_cardinality}", "try_with_labels"])

p("C05", "Histogram buckets count the observations at or below each bound",
  "After any sequence of observations, the exported bucket for upper bound b holds the number of observations x with x <= b, the +Inf bucket and the count hold the number of all observations (including NaN, infinities and values above the last bound), and the sum is the running floating-point sum of the observations. Buckets are exported in increasing bound order, ending in +Inf. The result is the same through shared access, exclusive access or a labelled collection, for any number of buckets including zero.",
  ["inputs", "histories"], "all bucket layouts and all observation sequences over all of f64",
  "Tests observe 21 ordinary positive values in two exponential layouts; values exactly on a bound, negative, NaN, infinite or subnormal values and other layouts are never tried.",
  ["core/src/metric/histogram.rs", "core/src/text.rs"],
  [("bucket search", "core/src/metric/histogram.rs observe"), ("cumulative export", "core/src/text.rs HistogramState::collect_into")],
  ["text scrape", "HistogramState fields"])

p("C06", "Bucket constructors give the documented bounds or refuse",
  "The linear constructor yields start, start+width, start+2*width, ...; the exponential constructor yields start, start*factor, start*factor^2, ...; the explicit constructor yields its argument unchanged. Each refuses (panics on) exactly the arguments its documentation excludes: non-positive width, non-positive start or factor not above one, and bounds that are not strictly increasing. Any number of buckets is supported, including zero and one.",
  ["inputs"], "all finite parameters and bucket counts; all explicit bound arrays including unordered, duplicate and NaN ones",
  "Tests use the exponential constructor with two parameter pairs; the other two constructors and every refusal are untested.",
  ["core/src/metric/histogram.rs"],
  [("assertions and bound computation", "core/src/metric/histogram.rs Thresholds")],
  ["Thresholds::get", "panics of the constructors"])

p("C07", "Timers and durations record elapsed seconds exactly once",
  "Observing a duration adds one observation of that duration in seconds. A timer, labelled or not, adds exactly one observation for its label group when it is observed or dropped, and none when forgotten; the value it adds is the elapsed time, which is the returned duration where one is returned. No other label group is affected.",
  ["histories", "inputs"], "all durations and all interleavings of starting, observing, dropping and forgetting timers on several label groups",
  "No test uses a timer or a duration.",
  ["core/src/metric/histogram.rs"],
  [("timer drop guards", "core/src/metric/histogram.rs HistogramTimer/HistogramVecTimer"), ("observe_duration*", "core/src/metric/histogram.rs")],
  ["histogram sum and count before and after each timer operation"])

p("C08", "Counters and gauges are exact over their whole range",
  "After any sequence of increments, decrements and sets that stays in range, a counter holds and exports exactly the sum of its increments as an unsigned 64-bit number, a gauge exactly its signed 64-bit value, and a float gauge exactly the IEEE result of the operations in order. Every way of performing an operation (by one, by an amount, shared, exclusive, labelled, one-off write) has the same effect. The exported text parses back to the identical value, including values above 2^63, -0.0, NaN, infinities and subnormals.",
  ["inputs", "histories"], "all values and op sequences over u64, i64 and f64",
  "Tests only reach values up to 3000 and never use float gauges or exclusive access.",
  ["core/src/metric/counter.rs", "core/src/metric/gauge.rs", "core/src/text.rs"],
  [("atomic arithmetic", "core/src/metric/counter.rs, gauge.rs"), ("number formatting", "core/src/text.rs write_metric_value")],
  ["state value", "text scrape"])

p("C09", "Text export parses back to exactly what was recorded",
  "Whatever strings are used as label values and help text, and whatever names, label sets and values the metrics have, the text export is a well-formed Prometheus text document (format 0.0.4) and an independent parser recovers from it exactly the exported families: names, help text, types, and per sample the label names and values in declaration order and the value. No label value or help text can add, hide or alter a line or sample. Each family's lines are contiguous with its help and type lines first.",
  ["inputs"], "all Unicode label values and help texts, all metric kinds and group shapes",
  "One escape test with one string exists for label values, none for help text or special floats, and nothing parses the output.",
  ["core/src/text.rs"],
  [("label escaping", "core/src/text.rs write_label_str_value"), ("help/type/sample lines", "core/src/text.rs TextEncoder")],
  ["bytes produced by the text encoders"])

p("C10", "Scrapes are pure and encoders carry no state between them",
  "Exporting changes no metric: two scrapes with no update in between give identical bytes. A reused encoder gives for every scrape the same bytes a fresh encoder gives, whatever it encoded before, for text and protobuf alike. Exporting through references, shared pointers, a buffered or streaming text encoder gives the same bytes.",
  ["histories"], "all sequences of updates and scrapes over shared and fresh encoders",
  "Every test encodes once with a fresh encoder.",
  ["core/src/text.rs", "prometheus-proto/src/lib.rs", "core/src/metric/group.rs"],
  [("encoder state reset", "core/src/text.rs flush/finish; prometheus-proto/src/lib.rs flush_buf")],
  ["bytes of consecutive scrapes"])

p("C11", "Writer failures are reported, never silently corrupting",
  "However the underlying writer splits, interrupts or limits writes, a successful export delivers exactly the bytes a perfect writer would have received. If the writer fails at any point, the export returns an error and what was delivered is a prefix of the correct bytes. After a failure the same encoder's next export to a working writer is complete and contains nothing left over from the failed one.",
  ["fault_sequences"], "all positions and kinds of write fault (error, short write, interruption) in text and protobuf exports",
  "No test uses a writer that can fail.",
  ["core/src/text.rs", "core/src/metric/name.rs", "prometheus-proto/src/lib.rs"],
  [("io::Result propagation", "core/src/text.rs write_metric_value; prometheus-proto/src/lib.rs flush_buf")],
  ["return values and bytes delivered to an instrumented io::Write"])

p("C12", "Protobuf export decodes to exactly what was recorded",
  "For any sequence of counter and gauge families with any help text, label values and numbers, the protobuf export is a sequence of length-delimited metric families that an independent decoder accepts and that carry, in order, exactly the recorded names, help texts, types, label pairs in declaration order, and values as doubles. A family without samples never changes what is exported for another family. The samples agree with those in the text export of the same metrics.",
  ["inputs", "histories"], "all family sequences (with and without help, empty and non-empty), string lengths across varint boundaries, and values",
  "Two tests encode one family with two samples each; multi-family streams, missing help, empty families and long strings are never decoded.",
  ["prometheus-proto/src/lib.rs", "prometheus-proto/src/encoding.rs"],
  [("length precomputation", "prometheus-proto/src/lib.rs encode_message/message_len"), ("family framing", "prometheus-proto/src/lib.rs flush_buf"), ("varint", "prometheus-proto/src/encoding.rs")],
  ["bytes written by the protobuf encoder"])

p("C13", "Names are validated and composed exactly",
  "A metric name is accepted, at run time or in a constant, if and only if it matches [a-zA-Z_:][a-zA-Z0-9_:]*, and a label name if and only if it matches [a-zA-Z_][a-zA-Z0-9_]*; a run-time rejection says whether the name was empty, held an invalid character or started with a digit. Any nesting of namespaces and suffixes encodes to namespace, underscore, inner name, and name followed by suffix. The length announced for a name always equals the number of bytes it encodes to.",
  ["inputs"], "all strings, and all nestings of namespaces and suffixes",
  "Tests only use valid literal names and one suffix.",
  ["core/src/metric/name.rs", "core/src/label/name.rs"],
  [("byte-class checks", "core/src/metric/name.rs try_assert_metric_name/const_assert_metric_name; core/src/label/name.rs"), ("composition", "core/src/metric/name.rs WithNamespace/WithSuffix")],
  ["MetricName::{from_str,try_from_str}", "LabelName::from_str", "MetricNameEncoder"])

p("C14", "Metric groups export their members in order under the right names",
  "Exporting a group declared with the derive macro exports its fields in declaration order, each under its field name or rename, prefixed by every enclosing namespace from the outside in, with its documentation comment as help text (none if it has none). Flattened groups add no prefix, absent optional members export no samples, and shared, borrowed or composed groups export like the groups themselves. Help, type and sample lines of a family all carry the same name, and the generated constructor initialises every field as its attributes say.",
  ["programs"], "all group declarations: nesting, namespaces, renames, docs, optional and shared members, initialisers, metric kinds",
  "Tests declare two groups with one namespace level and no renames, flattening, options or composition.",
  ["derive/src/metric_group/to_tokens.rs", "derive/src/metric_group/attr.rs", "core/src/metric/group.rs", "core/src/metric/name.rs"],
  [("generated collect_group_into/new", "derive/src/metric_group/to_tokens.rs"), ("namespaced encoder", "core/src/metric/group.rs WithNamespace")],
  ["text and protobuf scrape of generated programs"])

p("C15", "Derived label enums enumerate and name their variants exactly",
  "For any unit enum, the derived label has as many values as variants, encodes each to its declaration position and decodes each position back to it. A variant's label value is its explicit integer if it has one, otherwise its own rename, otherwise its name converted by the enum's rename rule, snake_case by default. An enum declared as a singleton is a label group with that one label name.",
  ["programs"], "all enum declarations: variant counts and names, integer discriminants, renames, each rename rule, singleton",
  "Doc tests cover three enums and two of the eight rename rules.",
  ["derive/src/value/to_tokens.rs", "derive/src/value/attr.rs", "derive/src/value/parse.rs"],
  [("generated encode/decode/visit", "derive/src/value/to_tokens.rs"), ("rename rules", "derive/src/value/attr.rs RenameAll")],
  ["FixedCardinalityLabel::{cardinality,encode,decode}", "LabelValue::visit", "text scrape"])

p("C16", "Derived label groups carry the right labels and sets",
  "For any struct of label fields, the derived group exports every field once in declaration order under its field name or rename with that field's value. The generated set's constructor takes its non-default parts, its cardinality is the product of its fixed fields (unknown with any dynamic field), and looking up and exporting any combination of field values gives that same combination back, with no two combinations sharing a metric.",
  ["programs"], "all struct declarations: field counts, orders, kinds (enum, pre-loaded, dynamic), defaults, renames, field names",
  "Tests declare structs of one to three fields in one order with no renames.",
  ["derive/src/label_group/to_tokens.rs", "derive/src/label_group/attr.rs", "derive/src/label_group/parse.rs"],
  [("generated visit_values", "derive/src/label_group/to_tokens.rs"), ("generated set", "derive/src/label_group/to_tokens.rs Set")],
  ["compiled generated programs: text scrape, encode/decode, cardinality"])

p("C17", "Invalid declarations do not compile",
  "A declaration whose label or metric names, namespaces or singleton name break the Prometheus grammar, that repeats or contradicts an attribute, uses an unknown attribute or rename rule, or applies a derive to an unsupported shape (enum variant with data, struct where an enum is needed, missing set name, non-dynamic set in a dynamic position or the other way round, a type that is no label enum as a fixed label) is rejected by the compiler. The same declaration without the offending part compiles.",
  ["programs"], "all single-fault mutations of valid generated declarations",
  "There are no compile-fail tests.",
  ["derive/src/label_group/attr.rs", "derive/src/label_group/parse.rs", "derive/src/value/attr.rs", "derive/src/value/parse.rs", "derive/src/metric_group/attr.rs", "derive/src/metric_group/parse.rs", "core/src/metric/name.rs", "core/src/label/name.rs"],
  [("attribute parsers", "derive/src/*/attr.rs"), ("const name assertions", "core/src/metric/name.rs, core/src/label/name.rs")],
  ["compiler verdict on generated programs"])

p("C18", "No update is lost or duplicated under concurrency",
  "When any number of threads update the same and different metrics concurrently, including the very first use of a label group and label values never seen before, the final value of every metric is the result of all updates, each applied exactly once. Every thread using a label group reaches the same metric. No thread is blocked forever by such updates and scrapes.",
  ["schedules"], "all interleavings of concurrent updates, first uses and scrapes on counters, gauges, float gauges and histograms, in dense, sparse and dynamic collections",
  "No test uses threads.",
  ["core/src/metric.rs", "core/src/metric/sparse.rs", "core/src/metric/counter.rs", "core/src/metric/gauge.rs", "core/src/metric/histogram.rs"],
  [("atomic read-modify-write", "core/src/metric/counter.rs, gauge.rs AtomicF64::inc_by"), ("once-cell / locked insertion", "core/src/metric.rs VecInner::get_metric, core/src/metric/sparse.rs get_metric")],
  ["final scrape against the sum of all issued updates"])

p("C19", "A histogram scrape is a consistent snapshot",
  "Every scrape of a histogram taken while other threads observe into it shows a state that existed: count, sum and every bucket reflect the same set of completed observations. Bucket counts are non-decreasing in the bound and the +Inf bucket equals the count. Successive scrapes never go backwards and include every observation that completed before the scrape began.",
  ["schedules"], "all interleavings of concurrent observations and scrapes, for single and labelled histograms",
  "No test uses threads.",
  ["core/src/metric/histogram.rs", "core/src/text.rs"],
  [("read lock to observe, write lock to sample", "core/src/metric/histogram.rs HistogramState")],
  ["scrapes taken concurrently with observers"])

p("C20", "Concurrent scrapes and removals neither lose nor repeat metrics",
  "While other threads create, update, remove and re-create label groups, each scrape exports each label group at most once, exports every label group that exists throughout the scrape, and never shows a counter going backwards unless it was removed. For a label group that is concurrently updated and removed, the removed states plus the finally exported value add up to exactly the updates issued. The number of metrics returned by removal for a label group never exceeds the number of times it was created.",
  ["schedules"], "all interleavings of update, removal, re-creation and scrape on sparse, dense and dynamic collections",
  "No test uses threads.",
  ["core/src/metric/sparse.rs", "core/src/metric.rs"],
  [("shard locks", "core/src/metric/sparse.rs")],
  ["concurrent scrapes, removed states, final scrape"])

p("C21", "Process metrics describe the monitored process",
  "A process collector created for any process id exports, for that process, the number of its open file descriptors, its soft limit on them when limited, its virtual and resident memory in bytes, its consumed CPU time in whole seconds, its number of threads and its start time since the Unix epoch in seconds, as the operating system reports them at the time of the scrape. When the process does not exist nothing is exported and no error occurs.",
  ["configurations", "inputs"], "all process ids (own, child, foreign, exited) and process states: descriptor counts, limits, threads, memory, CPU use",
  "The only test compiles an example and collects nothing.",
  ["process/src/lib.rs"],
  [("procfs sampling", "process/src/lib.rs collect_group_into"), ("start time at construction", "process/src/lib.rs ProcessCollector::new")],
  ["text scrape compared with an independent reading of /proc"])

p("C22", "Tokio runtime metrics match the runtime",
  "A runtime collector exports for each runtime it covers, under that runtime's name if it was given one, the values the runtime itself reports at the time of the scrape: thread counts by kind, active tasks, depth of each queue, and per worker its schedule, overflow, noop, park, steal, poll and busy-time figures. When the poll-time histogram is enabled its buckets are cumulative with the runtime's own bucket upper bounds in seconds, the last being +Inf. A collector of several runtimes exports each metric family once, with every runtime's samples in it.",
  ["configurations", "histories"], "all runtime kinds, worker counts, histogram settings and workloads, and any number of named runtimes",
  "The only test compiles an example; the module's own demo test is commented out.",
  ["tokio/src/lib.rs"],
  [("collect macro", "tokio/src/lib.rs collect"), ("bucket bounds", "tokio/src/lib.rs histogram_le")],
  ["text scrape compared with tokio's RuntimeMetrics read before and after"])

p("C23", "Dynamic label sets give each value one stable identity",
  "In a label set that learns values as it goes, every value keeps the identity it got when first seen for the life of the set, different values get different identities, and every identity resolves to its value, whichever threads or metric collections introduced or looked up the values and in whatever order. Collections that share one such set agree with each other and with collections that do not. When the set can hold no more values, new ones are reported as not contained while known ones keep working.",
  ["histories", "schedules"], "all orders and interleavings of first uses and lookups from several threads and several collections, and all capacities",
  "One test interns five keywords twice from one thread.",
  ["core/src/label/impls.rs", "core/src/label/value.rs", "derive/src/label_group/to_tokens.rs"],
  [("interning lookup", "core/src/label/impls.rs ThreadedRodeo")],
  ["LabelSet::{encode,decode}", "text scrapes of collections sharing a set"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
