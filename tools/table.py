prop("P07", "Typed accessors read their type's layout and refuse every other type",
  "For every value Validate accepts, an accessor of Value for one BSON type (Double, StringValue, Binary, Time, Regex, ..., Decimal128, Int, and their OK forms) hands out content only when the value is initialised and its type byte is that type's; otherwise it panics, and the OK form reports false and never panics. What it hands out is exactly what the layout of the type stores: the same bits, bytes, instant or document (the parsed form once there is one, which the value keeps for the Mutable accessors). Interface gives, for each type, that same content.",
  ["inputs"], "every valid value of every type, at every offset into shared bytes, whatever its content and whether or not its document was parsed before",
  "tests read a few values of small magnitude at offset two of fresh buffers; wrong halves, masks, lengths, terminators or instants, and accessors that accept a neighbouring type, need particular contents to show",
  ["value.go", "x_value.go", "types/decimal.go"],
  [("type byte guard in every accessor", "value.go"), ("offsets and lengths of each type", "value.go")],
  "guard and content conformance on SSA: under the validator's hypotheses, each return is shown unreachable for any other type byte, and each result is traced back, case by case, to the bits or span of the value's bytes the layout assigns to it",
  "Content produced in a way the analysis cannot trace (tables, loops that assemble bytes) is counted as not understood, not as conforming. That the regex pattern ends at the first terminator is not decided, only that it ends at one and the options begin just past it.",
  observe=["Value accessors", "Value.Interface"])
prop("P06", "A document's map view never goes stale",
  "After any sequence of operations that change which elements a document or array holds (append, set, delete, extend, reset, unmarshal, including one that panics half way), the next map view reflects the current elements: every key, with the element a lookup of it finds (the first). The view handed out is the caller's own: changing it never changes what later views report.",
  ["histories"], "every sequence of document operations interleaved with map views, including operations that panic",
  "tests take a map view after one or two mutators; the guarantee is about every mutator, every exit of it, and every history",
  ["document.go", "array.go", "unmarshal.go", "x_document.go"],
  [("cache flag cleared by every mutator", "document.go, array.go"), ("rebuild when the flag is clear, copy on return", "unmarshal.go")],
  "typestate/path dataflow on SSA: element-list write must be paired with cache invalidation on every exit",
  "Decides staleness for every path of every function that can write an element list, with helpers inlined; assumes callers do not modify the documented aliasing slice.",
  state=[("cached map + flag", "valid flag implies map mirrors the element list", "document.go")], observe=["Document.Map"])

prop("P23", "Shared recorders, collectors and registries respect their locks",
  "Every synchronized collector and recorder wrapper, interval recorder, operation registry and shared configuration or statistics object touches its shared state, and calls what it wraps, only while holding its own lock, exclusively for anything that writes. Every lock acquired is released before the operation returns, on every path, and no path acquires a lock it already holds.",
  ["schedules"], "every interleaving of calls from any number of goroutines, including background workers and cancellation",
  "a data race or a lock kept after return shows only under particular interleavings; the tests drive these types mostly from one goroutine",
  ["x/ftdc/collector_sync.go", "x/ftdc/events/collector.go", "x/ftdc/events/recorder_wrapper_sync.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_histogram_interval.go", "x/mrpc/registry.go", "x/ftdc/util/driver_shim.go", "x/ftdc/metrics/golang_info.go"],
  [("a mutex in each shared struct", "the listed files")],
  "lock-set dataflow on SSA with inlining (guarded-by, balance, mode) over all entry points",
  "Decides the locking discipline on every path; freedom from races follows for state reachable through the lock-bearing structs. Panics unwinding past a held lock are out of scope.",
  observe=["every method of the listed types"])

prop("P01", "Decoding and validating untrusted BSON never faults",
  "Decoding, validating, iterating, looking up or reading BSON from any byte sequence or stream, however malformed, hostile or truncated, returns a result or an error: it never indexes or slices out of range and never attempts an allocation of negative size because of a length it read.",
  ["inputs"], "every byte sequence and every stream, including adversarial length prefixes that overflow 32-bit arithmetic",
  "tests sample a handful of malformed documents; the guarantee is about every length, offset and nesting",
  ["reader.go", "value.go", "element.go", "document.go", "array.go", "iterator.go", "unmarshal.go", "validation.go"],
  [("length checks before every read", "value.go, reader.go, document.go")],
  "bounds proof on SSA: symbolic linear/interval reasoning with loop and struct invariants discharges every index, slice, fixed-width read and make reachable from the decoding entry points",
  "Proves absence of out-of-range index, slice, fixed-width read and negative make on every path, for slices below 1 GiB. Stack depth and explicit panics are out of scope.",
  observe=["Reader methods", "ReadDocument", "UnmarshalBSON", "Validate", "iterators"])

prop("P02", "Accessors of a validated value never fault",
  "Once a value has been accepted by validation, every accessor of it either returns the content or panics with the documented type or initialization error: it never reads outside the value's bytes. Decoding and iteration hand an element to the caller only after the full validation of that element has succeeded.",
  ["inputs"], "every value of every BSON type that validation accepts, with every accessor applied to it",
  "the agreement between what validation checks and what accessors read is quadratic in types and accessors and depends on lengths tests never use",
  ["value.go", "reader.go", "element.go", "iterator.go"],
  [("validate covers what the accessors read", "value.go"), ("validate before hand-out", "reader.go, iterator.go")],
  "bounds proof on SSA with the validator's success paths as hypotheses; dominance proof that hand-out follows full validation",
  "Proves each accessor's reads in range for every value the validator accepts (slices below 1 GiB, bytes unchanged between validation and use).",
  observe=["Value accessors", "Reader.Iterator", "Iterator.Next"])

prop("P08", "No failing step is swallowed by an operation that can report errors",
  "Whenever a step inside an operation that returns an error (or that owns an error channel, collector or captured result) fails, or such an operation receives an error from a goroutine it started, the failure comes back out: the operation returns a non-nil error, or hands that error over, on every path. The only exceptions are paths on which the operation compares that very error with a known value or type, and a second reading of the same text.",
  ["inputs", "faults"], "every failure of every step: malformed input, short reads, failed writes, failed encoders, closed files",
  "tests inject few failures; a dropped error is a silently truncated document, stream or report",
  ["reader.go", "document.go", "array.go", "constructor.go", "x_json_unmarshal.go", "jsonx/unmarshal.go", "x/ftdc/read.go", "x/ftdc/writer.go", "x/ftdc/collector_streaming.go", "x/ftdc/csv.go", "x/mrpc/mongowire/sock.go", "x/ftdc/metrics/json.go"],
  [("err checks after every fallible call", "whole repository")],
  "path-sensitive nilness dataflow on SSA: from each fallible call, assuming its error non-nil, every path to an exit is followed",
  "Covers every fallible call in every function with an error result, every closure, and every function given an error channel. Functions with no way to report errors are outside the statement.",
  observe=["returned errors"])

prop("P15", "Reading and parsing wire messages never faults",
  "Reading a wire protocol message from any stream, parsing the body of any message type from any bytes, asking the parsed message for its scope, namespace, documents or validity, or converting it to the request or response document it carries, returns a result or an error: it never indexes or slices out of range and never attempts an allocation of negative size because of a length or count it read.",
  ["inputs"], "every byte sequence for every operation code, including inconsistent lengths, counts and section sizes",
  "tests parse well-formed messages and a few truncated ones; the guarantee is about every length, count and truncation point",
  ["x/mrpc/mongowire/header.go", "x/mrpc/mongowire/sock.go", "x/mrpc/mongowire/wireutil.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_query.go", "x/mrpc/mongowire/wire_reply.go", "x/mrpc/mongowire/wire_command.go", "x/mrpc/mongowire/wire_insert.go", "x/mrpc/mongowire/wire_delete.go", "x/mrpc/mongowire/wire_kill_cursors.go", "x/mrpc/shell/util.go"],
  [("length checks before each field is read", "x/mrpc/mongowire/wire_*.go")],
  "bounds proof on SSA: symbolic linear/interval reasoning with loop invariants discharges every index, slice, fixed-width read, make and index-taking document accessor reachable from the entry points",
  "Proves absence of out-of-range index, slice, fixed-width read and negative make on every path, for buffers below 1 GiB. Explicit panics and nil documents are out of scope.",
  observe=["ReadMessage", "MessageHeader.Parse", "Message.Scope", "OpMessageSection", "ResponseMessageToDocument"])

prop("P13", "Iterators stop when their consumer stops",
  "Every iterator the library hands out (over the elements of a document read from bytes, over the chunks, samples, series and matrices of FTDC data) stops when its consumer stops: once the consumer's function has returned false it is never called again, on any path: not for the next item, the next chunk or an enclosing loop, not to report an error, not from a helper or a deferred call.",
  ["histories"], "every place at which a consumer may break out of its loop, for every content of the data, including errors found later",
  "calling the consumer again panics the program, but only when the loop is left early at the right item of data with more (or an error) behind it; tests mostly read to the end",
  ["reader.go", "x/ftdc/iterator.go", "x/ftdc/iterator_chunk.go"],
  [("functions that take a yield function", "reader.go, x/ftdc/iterator.go, x/ftdc/iterator_chunk.go")],
  "path exploration of the SSA of every function taking a yield function with a two-state typestate (running, stopped), following loops over other iterators, helpers, captured variables and deferred calls",
  "Covers every function of the repository of the shape func(yield func(...) bool). The iterator combinators of the fun library are trusted to stop. Does not decide which items are produced.",
  observe=["return_value"])

prop("P33", "Background work hands over its results before it signals its end",
  "A goroutine of the library records its errors and results before it signals that it is done (closes its channel, counts down its wait group), on every path, panics it recovers from included, and its starter reads them only after waiting: who sees the end of the data sees the errors too. A worker that collects errors of what it reads from asks for them after its loop over it, not before. What is received from a channel that can be closed without a value is used only after testing that it was not closed, so a cancelled read or write is never taken for a finished one.",
  ["schedules"], "every interleaving of workers, their starters, consumers and cancellation",
  "the loss needs the consumer to win a race against the last statements of a worker, or a cancellation at the moment of a close; tests nearly always see the other order",
  ["x/ftdc/iterator_chunk.go", "x/ftdc/read.go", "x/ftdc/collector_buffered.go", "x/ftdc/metrics/metrics.go", "x/ftdc/metrics/json.go", "x/ftdc/metrics/process_info.go", "x/mrpc/mongowire/sock.go"],
  [("goroutine bodies", "the listed files"), ("receives from channels that are closed", "x/ftdc/read.go, x/ftdc/iterator_chunk.go, x/mrpc/mongowire/sock.go")],
  "path exploration of the SSA of every goroutine body with a typestate (working, signalled, handed over after the signal); path search from go statement to reads; send-before-close analysis for every unguarded receive",
  "Decides the order within the worker, and the wait in its starter. Errors that a worker without any end signal pushes (buffered collector, interval recorders) may still be missed by who does not wait.",
  observe=["return_value"])

prop("P34", "Events and recorders count everything once, and where it belongs",
  "Adding a performance event to another adds each counter and each timer to the same one of the other, and takes over the added event's timestamp, gauges and ID (the next ID if it has none). Every event collector that sums puts each event into its running sum exactly once, whether or not it hands the sum on, hands it on at most once per event and only with that event in it, never keeps the caller's event as its sum, and refuses a missing event with an error; the basic collector hands on the sum for every event, and collectors that do not sum hand on each event as it is. Each Inc method of a recorder adds what it is given to, and each Set method sets (durations may instead add up), exactly the field of the event it is named for, or records it in that field's histogram; the synchronized recorder has the same method of the recorder it wraps called.",
  ["inputs", "histories"], "every sequence of events, every value of their fields, and every outcome of the sampling decisions",
  "tests look at totals of a few equal events and mostly at whether something was written; a field added to its neighbour, or an event counted only when it was sampled, shows in none of them",
  ["x/ftdc/events/collector.go", "x/ftdc/events/performance.go", "x/ftdc/events/recorder_performance_raw.go", "x/ftdc/events/recorder_performance_single.go", "x/ftdc/events/recorder_performance_grouped.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_histogram_single.go", "x/ftdc/events/recorder_histogram_grouped.go", "x/ftdc/events/recorder_histogram_interval.go", "x/ftdc/events/recorder_wrapper_sync.go"],
  [("Performance.Add, AddEvent of each collector, Inc and Set methods of each recorder", "x/ftdc/events")],
  "abstract interpretation on SSA with symbolic fields: on every path the final heap of Performance.Add, of each AddEvent and of each recorder method is compared with what each field must hold",
  "BeginIteration, EndIteration and what a histogram recorder does with a value outside its histogram are not part of it. A wrapper that passes methods on as functions is decided by the method's name.",
  observe=["Performance.Add", "AddEvent", "Recorder"])

prop("P22", "Collectors lose no sample and never mix schemas",
  "Wherever a collector is written out (FlushCollector, the flusher of CollectJSONStream), it is reset only after its resolved payload was written without error, and success is reported only once the payload was written and the collector reset, so no sample is lost and none is written twice; a collector made of other collectors hands on the payload of each before it goes to the next, and passes over none that holds samples. A collector that follows schemas (dynamic, streaming dynamic) adds a sample only to an empty chunk or to one whose recorded schema equals the sample's; afterwards the recorded schema is the schema of that chunk, also when flushing failed, and a new chunk it starts is kept. A Reset that replaces the wrapped collector keeps its kind, and leaves no schema recorded where Add reads an unset schema as an empty chunk.",
  ["inputs", "histories"], "every sequence of samples and schema changes, and every failing resolve, write or reset in between",
  "a lost or duplicated chunk needs a write that fails at the moment of a flush, a mixed chunk needs a schema that changes and changes back; tests flush to buffers that never fail and change schema once",
  ["x/ftdc/collector_streaming.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_batch.go", "x/ftdc/collector_buffered.go", "x/ftdc/collector_sync.go", "x/ftdc/events/collector.go", "x/ftdc/metrics/json.go"],
  [("FlushCollector's resolve, write, reset", "x/ftdc/collector_streaming.go"), ("schema hash of the last chunk", "x/ftdc/collector_dynamic.go, x/ftdc/collector_streaming.go")],
  "path exploration of the SSA with a flush typestate (resolved, written, failed, reset) and, for schema-following collectors, the relation between the recorded hash, the chunk's and the sample's on every path",
  "Decides the order of resolve, write and reset, and which chunk a sample goes to. How many samples a chunk takes, and metadata over resets, are outside.",
  observe=["return_value"])

prop("P29", "Reading never changes what is read, and results own their memory",
  "No function users call writes memory reachable from its arguments, except arguments that are there to be written (targets of Unmarshal and Read, byte destinations of the element encoders, Collect options). Nothing that reads (every method of a Document, Array, Element, Value, Reader, Elements or DocumentMap but the named mutators; the readers of jsonx; Info, Resolve, Header, Scope, Serialize and Marshal methods of collectors, events and messages) writes anything reachable from its receiver, except contents made on demand: a document's map of keys, a value's decoded sub-document, a message's size and serialized form. Copy, Sorted and Map give lists of their own; encodings, Binary and Interface give bytes of their own; constructors copy the bytes, values and lists of elements they are given; NewInsert and NewOpMessage copy their documents; writers keep nothing of the slice written.",
  ["inputs", "histories"], "every document, sample, event or message handed in, and every later use by either side",
  "shared memory shows only when one side changes its part after the call; tests compare the value once, right after the call, and never look at the arguments again",
  ["document.go", "array.go", "element.go", "value.go", "unmarshal.go", "x_document.go", "constructor.go", "elements/elements.go", "jsonx", "x/ftdc/util.go", "x/ftdc/writer.go", "x/ftdc/collector_better.go", "x/ftdc/collector_dynamic.go", "x/ftdc/events", "x/mrpc/mongowire"],
  [("Copy, Sorted, Map and the marshalers", "document.go, array.go, element.go"), ("constructors' copies", "constructor.go"), ("event collectors and writers", "x/ftdc/events/collector.go, x/ftdc/writer.go")],
  "field-sensitive, call-site-sensitive points-to and write-effect analysis on the SSA of each exported function, with rules for what may be written and what results may share",
  "Interfaces given by the user are taken to write nothing but Read's buffer. Collectors, readers and iterators share the documents they are given or give out by design and are not covered by the sharing rules; two goroutines making on-demand contents at once are outside.",
  observe=["return_value", "state"])

prop("P03", "Encoding writes the length, every element in order, and a zero byte",
  "Marshaling a document or array of well formed elements succeeds and gives a buffer of exactly the encoding's size that holds: the int32 size of the whole, then every element once and in order, then a zero byte; an array's elements go under their decimal indexes. An element is written as its header (type, key, zero byte) and value bytes as they are in its data, or, when it holds a decoded document, array or scope, as its header (and code) and the encoding of that, with the lengths around it set to match. The size that Validate reports is the size that is written.",
  ["inputs"], "documents of every mix of element types, at every nesting, with or without decoded sub-documents, at every offset of the output buffer",
  "a wrong length or a shifted element needs the right type, nesting and offset to show: inner documents edited after decoding, code with scope inside arrays, arrays of ten or more",
  ["document.go", "array.go", "element.go", "value.go", "elements/elements.go"],
  [("document and array writers", "document.go, array.go"), ("element writer", "element.go"), ("validators", "document.go, array.go, element.go, value.go")],
  "abstract interpretation of the SSA of the writers over symbolic sizes and offsets, comparing the writes on every path with the layout",
  "The lists analysed have 0, 1, 2, 3, 11 and 101 elements of any sizes; elements are taken to be well formed (header from start to offset, value from offset). The size of a regular expression value is not decided.",
  observe=["return_value"])

prop("P04", "Decoding finds every element, once and in order, at its place",
  "Decoding a well formed encoding as a document gives exactly its elements: each once, in the order of the encoding, empty and repeated keys included, with its header and its value at the places the encoding has them, and nothing that was in the document before. Validating a reader reports the size of the document, not counting what follows it. Looking an element up by position or by a path of keys finds the first such element, at its place, descending into inner documents and arrays; where there is none it reports an error.",
  ["inputs"], "every well formed encoding: values of any type and size, any keys, nested documents and arrays",
  "tests sample small documents with distinct, non-empty keys; skipped, repeated or misplaced elements need particular keys and sizes",
  ["document.go", "reader.go", "iterator.go", "x_constructor.go"],
  [("readElements, ElementAt, RecursiveLookup, Validate", "reader.go"), ("reader iterator", "iterator.go"), ("UnmarshalBSON, ReadDocument", "document.go")],
  "abstract interpretation of the decoders over encodings with symbolic tags and value sizes; places of the elements found are compared with those of the encoding as linear forms",
  "Loops are unrolled over a set of key lists (none, one, several, empty, repeated, neighbouring, long keys, inner documents and arrays); tags and sizes of values are symbolic. That validating a value reports its size is P03's.",
  observe=["Document.UnmarshalBSON", "ReadDocument", "DCE.Reader", "Reader.Validate", "Reader.ElementAt", "Reader.RecursiveLookup"])

prop("P11", "Documents and arrays are ordered lists",
  "Append and Extend add the given elements at the end, in order; AppendOmitEmpty leaves out nil and empty ones. Set replaces the first element with the key, or appends; Delete removes and returns the first with the key and keeps the order of the rest, or returns nil. Lookups by key, by position and by a path of keys (Search, into documents and arrays) find the first such element, and fail (nil, false, an error, or the documented panic) where there is none. Len, Elements and the iterators show exactly what is in the list, in order, and an iteration that is stopped ends. Reset empties. The same holds for arrays by position. Constructors make lists of exactly what they are given. No operation changes an element, the caller's arguments, or the list of any other document or array; a copy, an extended document and what it was extended with, and a constructor's result and its arguments share no list afterwards.",
  ["inputs", "histories"], "every list, every pattern of equal keys, lists with and without room behind them, and any later change to any of the lists involved",
  "sharing of a backing array shows only when both holders change later and the capacity happens to allow it; order and first-of-several need repeated keys",
  ["document.go", "x_document.go", "array.go", "element.go", "x_constructor.go", "iterator.go"],
  [("Document methods", "document.go, x_document.go"), ("Array methods", "array.go"), ("constructors", "x_constructor.go")],
  "abstract interpretation of each operation over lists as windows of shared arrays, under every pattern of equal keys up to a bound, compared with the list specification, and a sharing test on the resulting heap",
  "Lists of up to 4 elements (keys are only compared, so patterns of equality stand for all keys), with and without spare room. Keys and types of elements are taken as their accessors say (P07); Sorted's order is outside.",
  observe=["return_value", "state", "panics"])

prop("P30", "Memory given back to a pool is never used again",
  "After the library gives memory back to a buffer pool (Put, deferred or not, in a helper or a closure), no path reads it, writes it, stores it, returns it, sends it or gives it back a second time; it is no part of what the function or its callers return, and nothing reached from the receiver or the arguments holds it. Only memory the library made or took from the pool is given back, never memory of the caller's.",
  ["inputs", "histories", "schedules"], "every path, failing ones included, and every later or concurrent taker of the pool's memory",
  "the pool's next taker must get the same memory and write it before the stale use shows; single-threaded tests that look at the result at once see the right bytes",
  ["document.go", "array.go", "reader.go", "x/ftdc/util.go", "x/ftdc/collector_better.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_uncompressed.go"],
  [("scratch buffers of the marshalers and readers", "document.go, array.go, reader.go"), ("chunk buffers", "x/ftdc")],
  "points-to analysis (P29's engine) for what a Put is given and who else holds it, and path exploration of the SSA after each Put with aliasing of registers",
  "The pools themselves (of the fun library and sync) are trusted.",
  observe=["return_value", "state"])

prop("P24", "Cancellation releases every goroutine; nothing is sent on a closed channel",
  "Every blocking channel operation in the library ends: it is released by the cancellation of a context it also waits on (after which it does not go back to waiting), by its channel being closed on every path, or by a capacity that covers every send. No send can follow the close of its channel and no channel is closed twice. A wait group is counted up before its workers start and signalled on every path, panics included, as the worker's last act, so joined work is complete when the wait returns. A context the library derives is cancelled on every path of the function that made it, or by every closing operation (EndTest, Reset, Close) of the type that keeps it.",
  ["schedules"], "every interleaving of producers, consumers, cancellation, early abandonment and panics of user callbacks",
  "leaked goroutines and sends on closed channels need a particular moment of cancellation or a failing step while another goroutine is mid-send; tests run to the end",
  ["x/ftdc/read.go", "x/ftdc/iterator_chunk.go", "x/ftdc/collector_buffered.go", "x/ftdc/metrics/json.go", "x/ftdc/metrics/metrics.go", "x/ftdc/metrics/process_info.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_histogram_interval.go", "x/mrpc/mongowire/sock.go"],
  [("select with the context's Done", "the listed files"), ("deferred close, wait group", "x/ftdc/read.go, x/ftdc/metrics")],
  "channel-origin and path analysis on SSA: release, close-order, capacity, wait group and cancel-function typestate rules over every channel operation",
  "Covers every channel operation, close, wait group and cancel function in the repository. Blocking reads and writes of files and sockets are outside.",
  observe=["goroutines", "channels"])

prop("P17", "Stream readers take exactly one message, however the stream fragments",
  "Every function that takes one document or one wire message from a stream consumes exactly the bytes of that message: first the four bytes of its length, completely, then exactly the remaining bytes the length announces, completely, and nothing after them. How the stream splits its data into reads makes no difference, and consecutive messages on one stream are all found at their own offsets.",
  ["inputs", "schedules"], "every stream of messages under every fragmentation of the underlying reads",
  "tests read from in-memory buffers that return everything at once and hold one message; sockets and files do neither",
  ["reader.go", "document.go", "x_constructor.go", "x/mrpc/mongowire/sock.go"],
  [("io.ReadFull of prefix and rest", "reader.go, document.go, x/mrpc/mongowire/sock.go")],
  "inter-procedural use analysis of the reader value plus linear reasoning on SSA that the second read's length equals the prefix word minus four",
  "Covers every exported function of the root and wire packages with an io.Reader parameter, with its helpers and closures, and every read they make.",
  observe=["NewFromIOReader", "Document.ReadFrom", "DCE.ReadFrom", "ReadMessage"])

prop("P09", "Numbers are never changed by a conversion into or out of a document",
  "Whenever a Go number, a number from JSON or the length of a slice or string is written into a document by a constructor or encoder, or a number is read out by a value's accessor, every integer or float conversion on the way keeps its value: it is shown to fit the target type by the checks around it, on every path. Numbers that do not fit take the wider type, null or an error.",
  ["inputs"], "every value of every Go integer and float type given to every constructor, slice constructor and converter",
  "a conversion that truncates does so only for values next to or beyond a type's bounds; tests use small positive numbers",
  ["constructor.go", "x_constructor.go", "x_json_unmarshal.go", "x_json_marshal.go", "elements/elements.go", "value.go", "jsonx/constructor.go", "jsonx/unmarshal.go", "x/mrpc/shell/io.go", "x/ftdc/events/performance.go"],
  [("range checks before each narrowing", "constructor.go, x_constructor.go, x_json_unmarshal.go")],
  "value-flow from each conversion to an encoded number on SSA, then interval/linear proof that the operand fits the target type under the dominating checks",
  "Covers the root, elements, jsonx, mrpc and event packages; the FTDC collectors and system metrics, which store unsigned counters as their 64-bit pattern by design, are outside. Arithmetic overflow before a conversion is outside.",
  observe=["EC", "VC", "Document.UnmarshalJSON"])

prop("P05", "Typed constructors and encoders write the BSON layout of their type",
  "For every key and every argument, a constructor of one BSON type (EC.Double ... EC.MaxKey, the VC ones, EC.Time) and an encoder (elements.X.Encode and Element, into any buffer at any offset) writes exactly the layout BSON gives that type: type byte, key, terminator, then each field at its offset, little-endian, holding the argument or the length it stands for. The size, the recorded offsets and the returned count agree with that layout, and every field is written on every path that succeeds.",
  ["inputs"], "every key, argument, length, binary subtype, start offset and prior content of the destination",
  "tests encode a few short ASCII values into fresh buffers at offset zero; layout errors for empty values, multi-byte text, odd subtypes, extreme times or reused buffers go unnoticed",
  ["elements/elements.go", "constructor.go"],
  [("one encoder per type", "elements/elements.go"), ("buffer sizes and value offsets", "constructor.go")],
  "layout conformance on SSA: each write into the destination is located by linear reasoning and matched with one field of the type's layout, its content traced to the parameter, length or constant required; must-write path analysis",
  "Code written in a style the analysis cannot locate (table-driven or append-built buffers) is counted as not understood, not as conforming. Constructors that only choose between types (Interface, Int, slices) are outside this statement.",
  observe=["EC.*", "VC.*", "elements.*"])

prop("P31", "The library asks a value only for a type it is known to have",
  "Wherever library code takes a value out of a document, an array or parsed JSON and asks it for content of one type (Double, StringValue, MutableDocument, Int, Document, ...), a test of that value's type has established that type on every path that leads there. Input holding other types than expected (extended JSON, FTDC chunks, performance events, command replies) therefore yields an error or is passed over, never a panic. Constructors of JSON values pair each type with the Go type its accessor asserts.",
  ["inputs"], "every document and every JSON text, with any type under any key",
  "tests feed each decoder values of the type it expects; the panic needs a known key holding another type, or a type dispatch with one wrong row",
  ["x_json_unmarshal.go", "x_json_marshal.go", "x_document.go", "jsonx/constructor.go", "jsonx/value.go", "x/ftdc/bson_metric.go", "x/ftdc/bson_extract.go", "x/ftdc/bson_restore.go", "x/ftdc/bson_hash.go", "x/ftdc/read.go", "x/ftdc/events/performance.go"],
  [("type switches and OK accessors before each typed access", "the listed files")],
  "typestate proof on SSA: the type tag of each accessed value is a symbolic constant; assuming it differs from the accessor's type, every path to the access must be contradicted by the tests on it",
  "Values a collector keeps in its own lists (already sorted by type when extracted) are outside; code that uses the type of one value for another is reported. Missing keys are outside.",
  observe=["UnmarshalJSON", "ReadChunks", "UnmarshalDocument"])

prop("P16", "Messages are written and read in the layout the protocol gives them",
  "Every wire message is serialized as the 16-byte header followed by the fields of its operation in protocol order, 32 and 64 bit numbers little-endian, names as C strings, lists one element after the other, and the size in the header (and in each document sequence section) is the number of bytes written. Parsing reads every field from that place with that width, for every length of the names and documents before it, into the field that serializing writes, so parsing what was serialized gives the same field values. Constructors keep each argument in its own field, and the operation code selects the parser of the type that carries it.",
  ["inputs"], "every combination of field values, name lengths, document sizes and numbers of documents, sections and cursors",
  "tests round-trip a few small messages; a wrong offset, width, order or size only shows for particular field values, more than one element or a second section",
  ["x/mrpc/mongowire/header.go", "x/mrpc/mongowire/sock.go", "x/mrpc/mongowire/wireutil.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_query.go", "x/mrpc/mongowire/wire_reply.go", "x/mrpc/mongowire/wire_command.go", "x/mrpc/mongowire/wire_command_reply.go", "x/mrpc/mongowire/wire_insert.go", "x/mrpc/mongowire/wire_update.go", "x/mrpc/mongowire/wire_delete.go", "x/mrpc/mongowire/wire_get_more.go", "x/mrpc/mongowire/wire_kill_cursors.go"],
  [("Serialize and parse of each message", "x/mrpc/mongowire/wire_*.go")],
  "abstract interpretation on SSA over sums of field sizes (integers also bit by bit, loops summarised as repetition), for serializers, parsers and constructors, compared with a table of the protocol's layouts",
  "Covers all ten operations. Values no message can carry (names containing a zero byte, nil documents) and the parsing of an OP_QUERY that is turned into a command are outside; code the interpreter cannot follow is counted as undecided, not as conforming.",
  observe=["Message.Serialize", "ReadMessage", "MessageHeader.Parse", "NewQuery ... NewOpMessage"])

prop("P26", "Events and responses read back the document they write",
  "Every type of the library that writes itself as a document (performance and histogram events, histograms, system and process metrics, command responses) gives the elements of one document different keys and never writes a field under the name of another field. Events, histograms and responses write each of their tagged fields, unchanged, under exactly the key of its tag. A type that also reads itself from a document stores every element it writes back into the field it was written from, on whatever else the document or the receiver holds, and reports an element of any other type as an error instead of passing over it.",
  ["inputs"], "every combination of field values, of receivers used before, and of elements in the document read",
  "tests marshal a few events and compare selected keys; a key, field or type that differs between the two directions shows only for the field concerned with a telling value",
  ["x/ftdc/events/performance.go", "x/ftdc/events/histogram.go", "x/ftdc/hdrhist/snapshot.go", "x/ftdc/metrics/system_info.go", "x/ftdc/metrics/process_info.go", "x/ftdc/metrics/golang_info.go", "x/ftdc/metrics/runtime.go", "x/ftdc/metrics/birch_builders.go", "x/mrpc/shell/io.go"],
  [("MarshalDocument and UnmarshalDocument of each type", "x/ftdc/events/performance.go")],
  "abstract interpretation on SSA of every MarshalDocument and UnmarshalDocument (documents as lists of keyed elements with their source field, loops over documents once per element under the conditions on key and type), both directions compared with each other and with the struct tags",
  "The system metrics structs write some fields under keys that differ from their tags; for them only mix-ups between fields are reported. The element list of a custom event is a caller's own list of names and is not judged. Code the interpreter cannot follow is counted as undecided.",
  observe=["MarshalDocument", "UnmarshalDocument"])

prop("P20", "FTDC writing and reading agree on every field of a metrics document",
  "FTDC goes through a metrics document to record a sample, to hash its schema, to expand the reference document of a chunk into columns, and to restore samples from the columns. For every document these agree: a boolean, double, 32 or 64 bit integer or date takes one column and a timestamp two, other plain values take none, and documents and arrays take those of all their elements in order. Each column keeps the type of its value, is named by the full path of its field and starts at exactly the number the field is recorded as in samples, and paths of different columns never share memory that a later one overwrites. Restoring a sample, structured, flattened or as a matrix, makes of these numbers an element of the same key or path, type and value again.",
  ["inputs"], "every document: values of every type, any keys, any nesting of documents and arrays",
  "tests record a few shapes of documents; a column counted, named, typed or scaled differently in one of the walks only shows for the one type or nesting concerned, and then shifts every column after it",
  ["x/ftdc/bson_extract.go", "x/ftdc/bson_hash.go", "x/ftdc/bson_metric.go", "x/ftdc/bson_restore.go", "x/ftdc/bson_matrix.go", "x/ftdc/ftdc.go", "x/ftdc/util.go"],
  [("the four walks over documents", "x/ftdc/bson_*.go")],
  "abstract interpretation on SSA of the four recursive walks (found by their signatures), once per BSON type for an arbitrary value and per container for arbitrary elements, with lists of columns and texts of keys kept symbolic; the summaries are compared with each other",
  "Loops over elements are taken none, one and two times, each time for an arbitrary element. The two columns of a timestamp are two plain numbers in the flattened form. The CSV form is not judged. Known finding: the first column of a timestamp starts at 1000 times its seconds (an existing test requires it). Code the interpreter cannot follow is counted as undecided.",
  observe=["NewBaseCollector", "ReadStructuredMetrics", "ReadMetrics", "ReadMatrix", "Metric.Key"])
prop("P21", "Every number in an FTDC chunk is read back as it was recorded",
  "After the first sample, an FTDC chunk holds one number per sample and metric. Whatever numbers are recorded, in whatever order: an integer is kept as its 64-bit difference from the sample accepted just before, which is what the reader adds up, and a double as its bits, which the reader takes as they are. The collector puts the number of a sample and metric where the writer takes it from, counts every sample it keeps, and a sample it refuses changes nothing for the next one. The writer writes the numbers metric by metric, as many as its header tells, a run of zeros as a zero and how many more follow; runs of any length, also across metrics and at the end of the chunk, are read as exactly the zeros that were recorded.",
  ["inputs"], "every sequence of samples, accepted or refused, and every length and place of runs of unchanged numbers",
  "tests record short or random series; a run that is closed one too early, a difference too big for its type or a refused sample in between only shows for the series concerned, and then every later number of the chunk is wrong",
  ["x/ftdc/collector_better.go", "x/ftdc/read.go", "x/ftdc/bson_extract.go", "x/ftdc/util.go"],
  [("Add, getPayload", "x/ftdc/collector_better.go"), ("readChunks", "x/ftdc/read.go"), ("undelta, undeltaFloats, encodeValue", "x/ftdc/util.go"), ("extractDelta", "x/ftdc/bson_extract.go")],
  "abstract interpretation on SSA of the collector's Add, the chunk writer and the chunk reader: one way round each loop, from an arbitrary state of the run of zeros, must decode to exactly the numbers met (a loop invariant proved per path); symbolic place of a number at store and load; symbolic difference per type against the reader's sum",
  "The functions are found by what they call (uvarint coding) and by their signatures, not by name. Reading and writing a uvarint, zlib and what each type is recorded as (P20) are taken as given. Numbers that are collected in other forms than a slice made up front are undecided.",
  observe=["NewBaseCollector", "ReadMetrics", "ReadChunks"])
