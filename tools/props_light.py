prop("C30", "Caches keep what was last put, evict the least recently used, never exceed",
     "After any sequence of insertions, lookups, removals, pops, resizes and clears, a cache holds for each key at most the value put last, never more entries than its capacity, and evicts in the order of last use; what an insertion replaces, a removal takes out or a pop evicts is handed back. The sharded and locked forms agree with a single cache of their shards under every schedule of calls. The fixed-size ring buffer returns exactly what it was told to keep, in order.",
     ["histories", "schedules", "configurations"], "all call sequences, capacities (1, small, unbounded), shard counts and thread schedules",
     "The unit tests run a few fixed sequences on a capacity of two or three; order of eviction after promotions, callbacks on every exit path, shard arithmetic and concurrent use depend on the whole history.",
     ["common/cache/src"], [("LRU list and hash map", "common/cache/src/lru_cache/mod.rs, cache.rs"), ("shard by hash", "common/cache/src/sharded_sync_cache.rs, sharded_async_cache.rs"), ("ring indices", "common/cache/src/circular_kvcache.rs")],
     "stateful model-based property testing (generated call sequences vs a reference LRU; concurrent histories vs invariants)",
     "Sequential behaviour is decided against an exact LRU model after every call; concurrency is sampled on real threads (per-key last-writer and capacity invariants), not enumerated.")
prop("C31", "Rate and count limits never hand out more than configured",
     "A rate bucket never grants more than its initial balance plus one refill amount per elapsed interval and never saves up more than its maximum; a plain request is granted in full or refused leaving the balance alone, and a capped request is granted what is left of it. A count bucket's balance is its initial value plus increments minus decrements. Both survive being written to and read from their stored form at any point.",
     ["histories", "schedules", "configurations"], "all configurations (zero, huge), clock histories (standing still, jumping, stepping back) and request sequences, including concurrent requests",
     "The tests sleep in real time over a handful of requests; the bounds depend on the history of the clock and of the requests, and on extremes of the configuration.",
     ["common/limiter_bucket/src/rate_bucket.rs", "common/limiter_bucket/src/count_bucket.rs"],
     [("refill on elapsed intervals", "common/limiter_bucket/src/rate_bucket.rs"), ("compare-and-swap balance", "common/limiter_bucket/src/rate_bucket.rs")],
     "model-based property testing with a controlled clock (clock_gettime replaced per thread)",
     "Trusts the replaced clock to stand for SystemTime; concurrent requests are sampled on real threads.")
prop("C32", "Configuration means what is written: file, environment, defaults, checks",
     "Every option that is set takes exactly the written value, from a file or from its documented environment variable with the environment winning, everything else keeps its default, and a text that is no value of the option's type is refused. Printing a configuration and reading it back gives the same configuration; sizes and durations keep their exact value. A configuration whose fields are all valid passes the check, and one with an invalid field is reported naming that field.",
     ["inputs", "configurations"], "all combinations of options, spellings of sizes and durations, environment variables and invalid values",
     "Tests parse one complete sample file; which option, which unit, which override and which invalid value is met with is a product of all of them.",
     ["config/src/tskv", "config/src/meta", "config/src/common", "config/src/codec", "config/src/check.rs", "common/utils/src/byte_nums.rs", "common/utils/src/duration.rs"],
     [("layered providers", "config/src/tskv/mod.rs, config/src/meta/mod.rs"), ("size and duration codecs", "config/src/codec"), ("CheckConfig", "config/src/check.rs")],
     "property-based testing: generated option sets vs a table of expected values, print/read round trip",
     "The table of options is written in the harness; an option added to the code later is covered only by the print/read round trip.")
prop("C33", "HTTP bodies decode to what was sent, whatever the encoding",
     "For every supported content encoding decoding the encoded body gives the body, the output is readable by and readable from an independent implementation of that encoding, and a damaged body is refused rather than silently shortened or changed. Encoding names are recognised exactly as documented, error bodies are valid JSON carrying the code and the message unchanged, and request URLs and parameters reach the server as given.",
     ["inputs", "fault_sequences"], "all bodies, encodings, names, truncations and single corruptions of them, messages and parameters",
     "Tests encode one short string per encoding; sizes around buffer boundaries, damage and quoting need generated bodies.",
     ["common/http_protocol/src"], [("encode / decode", "common/http_protocol/src/encoding.rs"), ("ErrorResponse", "common/http_protocol/src/response.rs"), ("client builder", "common/http_protocol/src/http_client.rs")],
     "property-based testing: round trip, differential against the reference codecs, fault injection on encoded bodies",
     "Damage is required to be noticed only where the format carries the means (gzip, zstd, brotli ends); raw deflate, LZ4 and Snappy frames cut at a block boundary are out of the claim.")
prop("C34", "Metric reports add up to what was recorded",
     "Every value recorded is contained in the next report exactly once, under the labels it was recorded with and those of its registers, and counters, gauges, averages and histogram buckets (values beyond the last bound are not counted) equal those computed from the list of recorded values. Labels keep each name once with the value given last, and removing a recorder removes only its own series. Concurrent recording loses and doubles nothing.",
     ["histories", "schedules"], "all sequences and interleavings of recording, labelling, removing and reporting",
     "Tests record one or two values; sums, bucket edges, label merging and races appear only over histories.",
     ["common/metrics/src"], [("recorders", "common/metrics/src/count.rs, gauge.rs, histogram.rs, average.rs"), ("registry", "common/metrics/src/metric_register.rs"), ("prometheus text", "common/metrics/src/prom_reporter.rs")],
     "model-based property testing: recorded histories vs sums computed independently; reports re-parsed",
     "Concurrent recording is sampled on real threads.")
prop("C35", "Trace contexts survive every hop unchanged",
     "A trace context written as text and read back gives the same trace and span, and any text is either read as documented (two hexadecimal numbers that fit) or refused without a crash. Along a chain of hops a request carries exactly the context put in at the last hop, an unreadable one is dropped, and a fresh one is made only where that is asked for.",
     ["inputs", "histories"], "all identifiers, header texts and chains of hops",
     "No header but the well-formed one is tried by tests; the header comes from the network.",
     ["common/trace/src"], [("text form of a context", "common/trace/src/span_ctx_ext.rs"), ("header extraction", "common/trace/src/http/http_ctx.rs")],
     "property-based testing: round trip and a reference parser over generated and mutated headers",
     "The reporting back end (jaeger/otlp) is not exercised.")
prop("C36", "Hashes are stable and Bloom filters never deny a member",
     "A Bloom filter answers yes for everything inserted, also after being serialised and reloaded, and stays selective for keys that were not inserted; the identifier hash is a function of the bytes alone, equal over any split of the input into calls.",
     ["inputs", "histories"], "all key sets, filter sizes and splits",
     "Tests insert a few keys into one size; a filter that loses bits on reload is only seen with sizes and keys that use them.",
     ["common/utils/src/bloom_filter.rs", "common/utils/src/bkdr_hash.rs"], [("bit positions", "common/utils/src/bloom_filter.rs"), ("BKDR hash", "common/utils/src/bkdr_hash.rs")],
     "property-based testing: membership invariant, reference hash, statistical bound on false positives",
     "The bound on false positives is far above the design rate so that chance cannot trip it.")
prop("C37", "Timestamps and durations convert exactly or say they cannot",
     "Converting a timestamp between precisions gives exactly the scaled value (rounded toward zero), or nothing when it does not fit; a duration's text, its value in each unit (held at the largest timestamp when beyond it) and its printed form agree, and unreadable text is refused.",
     ["inputs"], "all 64-bit timestamps, precision pairs and duration texts",
     "Tests use a few small values; overflow boundaries and unit combinations are not among them.",
     ["common/utils/src/precision.rs", "common/utils/src/duration.rs"], [("timestamp_convert", "common/utils/src/precision.rs"), ("CnosDuration", "common/utils/src/duration.rs")],
     "property-based testing against 128-bit integer arithmetic and a reference duration parser", "")
prop("C38", "Deduplication keeps one of each run; generated ids never repeat",
     "Removing consecutive equal elements leaves the last one of each run, in order, with whatever the comparison merged into it, and drops every other element exactly once, also when the comparison panics part-way. Ids handed out by one generator, to any number of threads, are distinct and consecutive from where it was set.",
     ["inputs", "schedules", "fault_sequences"], "all sequences, callbacks (panicking at any call) and thread schedules",
     "The unsafe in-place implementation is tested on five fixed lists; leaks, double drops and panics are not.",
     ["common/utils/src/dedup.rs", "common/utils/src/id_generator.rs"], [("in-place compaction with a drop guard", "common/utils/src/dedup.rs"), ("id generator", "common/utils/src/id_generator.rs")],
     "property-based testing: reference implementation, drop counting, injected panics, concurrent ids", "Id races are sampled on real threads.")
prop("C39", "Messages between nodes carry exactly the columns and values put in",
     "What the writers of the wire messages put in, the readers get out: every column with its type, values and nulls in place, tables, tags and fields by name, and the transport-level messages unchanged. A damaged message is refused or read as some message, never a crash or an endless read. Clients honour their configured message limits.",
     ["inputs", "fault_sequences"], "all generated batches, schemas and messages, and corruptions and truncations of their bytes",
     "Tests build one or two fixed batches; column mixes, null patterns and damaged bytes are products of generated shapes.",
     ["common/protos/src"], [("batch builders and checkers", "common/protos/src/models_helper.rs"), ("generated accessors", "common/protos/src/generated"), ("client construction", "common/protos/src/lib.rs")],
     "property-based testing: round trip through the builders and readers, byte-level fault injection, live client calls over loopback",
     "Clients are called on a loopback server of the harness.")
prop("C40", "Error codes and configuration keys are derived as declared",
     "For every error type an error's code is its module code followed by its four-digit number (zeros when none is declared), its message is its display form, and declarations that clash or do not fit are refused at compile time. For every configuration type the derived keys are the upper-case dotted paths of all leaves in declaration order.",
     ["programs", "inputs"], "all type declarations the derives accept or must refuse, and all values of them",
     "The derives run at compile time on whatever types the source declares; tests cover the few existing ones.",
     ["common/derive_macros/src", "common/derive_traits/src"], [("ErrorCoder derive", "common/derive_macros/src/error_code"), ("Keys derive", "common/derive_macros/src/keys")],
     "generated programs compiled with the derives, compared with expectations from the generator; rejection tests by rustc",
     "Types are generated from the seed; shapes the derive does not support (tuple variants without exactly one field) are left out.")
