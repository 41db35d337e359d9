#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the lines stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Coded bit streams decode losslessly and consume exactly their bytes",
  "For every sequence of bits coded with any probabilities and of rare-event flags, decoding the produced bytes with the same probabilities returns exactly the coded values. The decoder reads all of the bytes that the encoder wrote for that stream and not one more, so streams can follow each other in one file and a truncated stream is refused rather than misread.",
  ["inputs", "fault_sequences"],
  "every script of (probability, bit) and rare-event flags up to millions of events, including those steered so that carries propagate through long 00/ff byte runs; writers and readers that transfer partially or are interrupted",
  "coding_symbols.rs samples a few hundred short random streams whose intervals almost never straddle a carry boundary; carry propagation, rare events next to it, stream concatenation and interrupted I/O are not sampled",
  ["src/coding/encoder.rs", "src/coding/decoder.rs", "src/coding/mod.rs"],
  [("range subdivision", "Encoder::encode_bit / Decoder::decode_bit"), ("carry propagation over delayed bytes", "Encoder::output_byte"), ("renormalisation", "normalize in both"), ("flush on drop", "Drop for Encoder")],
  [("rc_range", "width of the current interval", "Encoder, Decoder"), ("rc_buffer / carry / run_length_0xff", "pending low end of the interval", "Encoder")],
  ["bytes written", "bytes read", "decoded values"])

p("C02", "Coded length stays within a fixed bound of the ideal code length",
  "For every sequence of coded events, the number of bytes produced is at most the ideal information content of the sequence under the given probabilities, plus the rounding loss of 31-bit range arithmetic (less than one part in the scaled probability per event) plus a small constant. It never falls below the information content by more than the mirrored rounding gain, and a flag saying that a rare event did not happen costs practically nothing.",
  ["inputs"],
  "every script of coded events, including millions of highly predictable bits where per-event loss accumulates and steered boundary cases",
  "no test compares output length with information content; a coder that loses precision at small ranges still round-trips",
  ["src/coding/encoder.rs", "src/coding/decoder.rs"],
  [("range kept above 2^23 before each subdivision", "normalize"), ("64-bit product of range and probability", "encode_bit"), ("rare event takes one unit of range", "encode_rare_event")],
  [("rc_range", "precision left for subdivision", "Encoder")],
  ["bytes written"])

p("C03", "All context-history implementations report identical contexts",
  "For every input that fits the window and every maximum order, the brute-force, hash-map and suffix-tree history sources report the same list of contexts before each bit: same number, same kind (deterministic or branching), same last-occurrence distance, occurrence count, repeated bit, recent bits, run lengths and probability estimates. The two sources that keep per-context coding costs also report the same costs when they are fed the same costs.",
  ["inputs", "histories", "configurations"],
  "every byte string up to the window size, every maximum order (above 63 as well), every cost feedback, every start position of the circular buffer",
  "compare_history_sources_* feed a handful of fixed and random strings at a few orders; feedback of non-default costs is never compared between sources; higher orders, bit-level near-repeats and tie cases of the tree are not reached",
  ["src/history/naive.rs", "src/history/fat_map.rs", "src/history/tree/mod.rs", "src/history/tree/context.rs", "src/history/tree/node.rs", "src/history/mod.rs"],
  [("suffix tree insertion and active contexts", "src/history/tree/mod.rs"), ("hash map of context bits", "src/history/fat_map.rs"), ("full rescan", "src/history/naive.rs")],
  [("CollectedContextStates", "what each source reports", "src/history/mod.rs")],
  ["gather_history_states after every bit"])

p("C04", "With a sliding window, reported contexts are exactly those inside the window",
  "When the input is longer than the window, the suffix-tree source reports before each bit exactly the orders whose context (bytes and bits of the current byte) occurs earlier inside the last window-size bytes, with last-occurrence distances equal to those found by scanning that window, and never depends on bytes that have left it for which contexts exist. Deterministic contexts report the bit that followed that occurrence.",
  ["inputs", "histories", "configurations"],
  "every input far longer than the window, window sizes 1..N, orders 1..63, buffer wrap-around at every phase",
  "sliding_window_trees.rs checks structure on fixed strings and random runs, but never compares the reported contexts of a slid window with an independent scan of that window",
  ["src/history/tree/mod.rs", "src/history/tree/context.rs", "src/history/window.rs"],
  [("removal of the leftmost suffix", "remove_leftmost_suffix"), ("active contexts shift", "src/history/tree/context.rs")],
  [("window", "circular input buffer", "src/history/window.rs")],
  ["gather_history_states after every bit while sliding"])

p("C05", "Suffix tree stays structurally sound and bounded while the window slides",
  "After every byte of any input and any number of window slides, the tree is a well-formed binary suffix tree of exactly the bytes in the window: one leaf per suffix, every internal node with two different branches, parent and depth links that agree with the text. It never holds more nodes than the window allows, nodes are reused without leak, and removing everything leaves it empty and usable.",
  ["inputs", "histories", "configurations"],
  "every interleaving of growth, sliding and draining, window sizes from 1, every order",
  "sliding_window_trees.rs fixes its strings, windows and slide pattern; interleavings of partial drains and refills and buffer wrap phases are unbounded",
  ["src/history/tree/mod.rs", "src/history/tree/nodes.rs", "src/history/tree/node.rs", "src/history/tree/node_child.rs", "src/history/window.rs"],
  [("integrity check", "check_integrity"), ("free list of nodes", "src/history/tree/nodes.rs"), ("split and merge of edges", "src/history/tree/mod.rs")],
  [("Nodes", "pool and free list", "src/history/tree/nodes.rs")],
  ["tree integrity after every byte", "live node count"])

p("C06", "Circular input window behaves like a queue of bytes",
  "For every sequence of appending bits, advancing and trimming, the circular window reports the same size, bytes, bits, distances, index ordering, suffix set and equal-prefix comparisons as a plain unbounded queue of bytes. This holds at every phase of wrap-around, including empty and full windows.",
  ["histories", "configurations"],
  "every operation sequence, every capacity from 1 and every starting offset",
  "the window is only exercised indirectly by tree tests at few capacities and offsets",
  ["src/history/window.rs"],
  [("modular index arithmetic", "InputWindow::index_add/index_subtract/index_diff"), ("wrap-around ranges", "for_each_suffix")],
  [("start, cursor, size", "circular buffer position", "InputWindow")],
  ["all public operations"])

p("C07", "Fixed-point arithmetic is correctly rounded and never silently out of range",
  "Every conversion between fixed-point formats, sum, difference, product, quotient and complement returns the mathematically exact result rounded to the nearest representable value (halves away from zero), except that operands within half a unit of the raw type's limit may be off by one unit. A result that does not fit the target type is reported by a panic in every build mode, never wrapped. A value reads as the nearest floating-point number, and a float that is exactly representable converts back to that value.",
  ["inputs", "configurations"],
  "every operand pair including the extremes of each raw type, every pair of formats, checked and release builds",
  "fixed_point_numbers.rs checks a few dozen fixed operands",
  ["src/fixed_point/mod.rs", "src/fixed_point/types.rs"],
  [("rounding shifts and divisions", "fix_i32/fix_u32/fix_i64/fix_u64"), ("bounds assertions", "FixedPoint::new")],
  [], ["returned raw values", "panics"])

p("C08", "Logistic mapping between linear and stretched domains is accurate and consistent",
  "Converting a probability to the logistic domain and back is monotone in both directions (up to one unit in the last place), exactly symmetric around one half, close to the real logistic functions over the whole domain (probabilities below 2^-17 or above 1-2^-17 may saturate), and the two conversions invert each other up to that precision. Every representable input is accepted and the output is always inside its own domain.",
  ["inputs"],
  "all 2^31 linear probabilities (thorough; a dense stratified set in quick) and all stretched values",
  "sigmoid.rs samples a few thousand points with loose tolerances",
  ["src/lut/stretch.rs", "src/lut/squash.rs"],
  [("piecewise linear tables", "StretchLut, SquashLut")], [], ["stretch(p)", "squash(x)"])

p("C09", "Adaptive probability estimators stay valid, follow the bits and converge",
  "From every reachable state, feeding a bit moves the estimate toward that bit and never past it, by the fraction of the remaining distance that its rate prescribes (1/(count+2) for the decelerating estimator at its default rates, 1/128 for the fixed-speed one); the estimate always remains strictly between 0 and 1, and the adaptation count grows by one up to its limit and never beyond. Treating zeros as ones mirrors the estimate, and on a constant or stationary input the estimate converges to its frequency.",
  ["inputs", "histories"],
  "every (estimate, count) state and both bits for the decelerating estimator (exhaustive in thorough), every state of the fixed-speed estimator at every rate",
  "probability_estimators.rs checks a few hand-picked transitions",
  ["src/estimators/decelerating.rs", "src/estimators/fixed_speed.rs", "src/lut/estimator.rs"],
  [("update by precomputed rates", "DeceleratingEstimator::update"), ("packed prediction and count", "DeceleratingEstimator")],
  [], ["prediction and count after each update"])

p("C10", "Reported bit costs equal the information content of the probability used",
  "The cost reported for coding a bit is the negative base-2 logarithm of the probability given to that bit, within the precision of the logarithm table, is always positive, and never decreases as the bit gets less probable. Base-2 logarithms of all supported number formats obey the same precision, and the running cost average always stays between its previous value and the newly observed cost (in the tracker's own scale, saturating at its ends).",
  ["inputs", "histories"],
  "all 2^23 probabilities and both bits exhaustively, all table indices, 32- and 64-bit operands stratified by magnitude, every tracker state",
  "cost_tracking.rs checks a few values and averages",
  ["src/coding/mod.rs", "src/lut/log2.rs", "src/fixed_point/mod.rs", "src/estimators/cost.rs", "src/lut/cost.rs"],
  [("log2 table with leading zeros", "FixU32::log2 / FixU64::log2"), ("cost tracker decay", "CostTracker::updated")],
  [], ["estimate_cost", "log2", "CostTracker::updated"])

p("C11", "Mixers compute bounded logistic mixes and learn in the right direction",
  "For every set of inputs and every training history, a mixer's output probability is the logistic function of the weighted sum of its inputs (within fixed-point precision), is strictly inside (0,1), and after training on a bit every weight moves in the direction that makes this bit more probable, in proportion to its input, the prediction error and a rate that decays with the number of trainings down to the given limit. Weights always stay within their limits, and the mixer of variable size behaves like the mixer of fixed size with the same weights.",
  ["inputs", "histories", "configurations"],
  "every input vector including domain extremes, mixer sizes 1..30, long and adversarial training sequences driving weights into their limits",
  "probability_mixing.rs trains a few mixers on a few easy sources and checks the direction loosely",
  ["src/mixing/mixer.rs", "src/mixing/mod.rs"],
  [("dot product and clamp", "Mixer*::mix_all"), ("error-driven update", "update_and_reset"), ("weight clamp", "MixerWeight::clamped")],
  [("weights", "learned parameters", "Mixer*")], ["mix_all output", "weight(i)"])

p("C12", "Probability maps accept every input and refine only what they should",
  "For every context and every consistent pair of linear and logistic probability, refinement never fails, returns valid probabilities and interpolates between the two neighbouring map entries; an untrained map returns its input (up to interpolation error in the linear domain, inputs beyond the outermost interval ends count as these ends). Training changes only the selected context and interval ends, moving them toward the observed bit by the given rate and weights.",
  ["inputs", "histories", "configurations"],
  "all interval resolutions, every context count, all 2^31 input probabilities (thorough), long training sequences",
  "probability_mapping.rs checks a few thousand random inputs at a few configurations",
  ["src/mixing/apm.rs", "src/lut/apm.rs", "src/fixed_point/types.rs"],
  [("interval index and interpolation", "AdaptiveProbabilityMap::refine"), ("training of saved interval", "update_predictions")],
  [("saved stretched prediction/context", "what the last refinement used", "AdaptiveProbabilityMap")], ["refine output before and after training"])

p("C13", "Prediction-driven compression is lossless, causal and never fails",
  "For every byte sequence, coding each bit with the compressor's predicted probability and decoding it with a second, independent predictor fed only with already decoded bits reproduces the sequence exactly. The prediction for a bit depends only on the bytes and bits before it, is always a valid probability, and no input (including inputs much longer than the window) makes the predictor fail.",
  ["inputs", "histories", "configurations"],
  "every input; window lengths and orders from tiny to the default; inputs sharing a prefix",
  "no test drives the whole predictor or combines it with the coder",
  ["src/predictor/mod.rs", "src/predictor/chain.rs", "src/predictor/kits.rs", "src/predictor/single.rs", "src/predictor/post_process.rs", "src/coding/encoder.rs", "src/coding/decoder.rs", "src/main.rs"],
  [("symmetric predict/update protocol", "Predictor"), ("range coder", "src/coding")],
  [], ["probabilities per bit", "decoded bytes"],
  "a predictor constructor with a chosen window and order, so that sliding is reached")

p("C14", "Predictable data becomes cheap, unpredictable data is not inflated",
  "On data with repeated structure the compressor's cost per byte falls far below the order-0 entropy as more of it is seen, for repeats at any distance inside the window, long repeats included. On incompressible data the total cost exceeds eight bits per byte by at most a small percentage.",
  ["inputs", "configurations"],
  "families of generated sources (repeats, periodic, Markov, text-like, random) at many lengths, distances and seeds",
  "no test looks at compression results at all",
  ["src/predictor/mod.rs", "src/predictor/chain.rs", "src/predictor/kits.rs", "src/predictor/single.rs", "src/predictor/post_process.rs", "src/mixing/mixer.rs", "src/mixing/apm.rs"],
  [("context chain and mixing", "src/predictor/chain.rs"), ("final refinement", "src/predictor/post_process.rs")],
  [], ["accumulated cost per byte"])

p("C15", "Command-line programs report totals consistent with what they processed",
  "For every input file the compressor's command line reports the true input length, a total compressed cost equal to the sum of the costs of all coded bits, the averages and ratio that follow from them, the average number of matching contexts, and a table-based total within table precision of the exact one. The history-printing program prints, for every history type, exactly the contexts that the file implies; a missing or unreadable file is an error exit.",
  ["inputs", "configurations"],
  "every input file including the empty and one-byte file, all byte values, files with long repeats, pipes with short reads; all history types",
  "no test runs the programs or checks their totals",
  ["src/main.rs", "src/bin/print_histories.rs", "src/predictor/stats.rs", "src/predictor/mod.rs"],
  [("cost accumulation", "src/main.rs, PredictionStatistics::on_next_bit")],
  [], ["standard output", "exit status"])

p("C16", "Recent-byte caches and context hashes depend on exactly the bytes they cover",
  "For every input position, the cache of recent bytes returns the unfinished byte, the last bytes and their hashes computed from exactly that many preceding bytes, equal to an independent computation from the raw input. Equal recent bytes always give equal hashes, whatever came before them.",
  ["inputs", "histories"],
  "every byte stream and position, including the first bytes before the cache has filled",
  "last_bytes_cache.rs and hashing.rs use a few fixed strings",
  ["src/util/last_bytes.rs", "src/util/hash.rs"],
  [("rolling cache", "LastBytesCache"), ("FNV-1a", "Fnv1A")], [], ["cache accessors after every bit"])

p("C17", "Multi-dimensional table indexing is a bijection and rejects bad coordinates",
  "For every choice of dimensions whose product is representable, in-range coordinates map one-to-one onto 0..size-1 and to the row-major position (last coordinate fastest). Any coordinate outside its dimension, and any incomplete or overlong address, is refused, never aliased to another cell. Banks of estimators and mixers addressed this way predict with and train exactly the addressed cell.",
  ["inputs", "configurations"],
  "1 to 6 dimensions, every small shape exhaustively, random larger shapes, out-of-range coordinates in every position",
  "array_indexing.rs checks a few shapes",
  ["src/util/indexer.rs", "src/predictor/kits.rs"],
  [("mixed-radix accumulation", "Indexer1..Indexer6")], [], ["computed index", "panics"])

p("C18", "Reported per-context statistics follow exactly from the input seen so far",
  "Before each bit, the statistics reported for every matching context equal those computed independently from the raw input: how often it occurred, how far back it occurred last, which bits followed, the most recent following bits, and the lengths of their runs, saturating at the stated limits and never wrapping. Truncation keeps the most recent history.",
  ["inputs", "histories"],
  "every input up to several thousand bytes, contexts that occur more often than every saturation limit, every bit history of the per-context recorders",
  "bits_history_*.rs check short fixed bit strings; no test compares full context statistics with an independent computation",
  ["src/history/mod.rs", "src/history/state/recent_bits.rs", "src/history/state/bits_runs.rs", "src/history/tree/node.rs", "src/history/naive.rs"],
  [("shift register with marker", "RecentBitsHistory"), ("packed run lengths", "BitsRunsTracker"), ("saturating counts", "ContextState")],
  [], ["context states before every bit"])

p("C19", "Occurrence-count quantization is monotone, gapless and bounded",
  "Over the whole range of counts the quantized value starts at zero, never decreases, never skips a value, keeps small counts distinct, and never exceeds the advertised maximum. Each quantized value covers counts within a fixed ratio of each other.",
  ["inputs"], "all 65536 counts, exhaustively",
  "quantization.rs compares a value with itself, so it can never fail",
  ["src/util/quantizers.rs"], [("leading-zero based quantizer", "OccurrenceCountQuantizer::quantize")], [], ["quantize(n)", "max_output()"])

p("C20", "Random generator is the standard 64-bit Mersenne Twister",
  "For every seed and every position in the stream, including seeding by non-empty arrays of any length, the generator returns the same 64-bit numbers as the standard 64-bit Mersenne Twister. Derived real numbers use the documented intervals and never leave them.",
  ["inputs", "histories"], "every scalar seed, every seed array, streams far past several state regenerations",
  "no test compares the generator with a reference",
  ["src/random/mod.rs"], [("twist and tempering", "MersenneTwister")], [("mt, mti", "generator state", "MersenneTwister")], ["generated numbers"])

p("C21", "Results do not depend on the build mode and no arithmetic overflows",
  "For every input, builds with integer overflow checks and debug assertions and plain release builds produce bit-identical predictions, context reports and coded bytes. No arithmetic in the prediction pipeline ever overflows or relies on wrapping.",
  ["inputs", "configurations"], "every input and configuration, both build modes",
  "tests run in one mode only",
  ["src/predictor/mod.rs", "src/mixing/mixer.rs", "src/mixing/apm.rs", "src/estimators/decelerating.rs", "src/history/tree/mod.rs", "src/coding/encoder.rs"],
  [("explicit checked and wrapping arithmetic", "whole crate")], [], ["probabilities", "context digests", "coded bytes"])

p("C22", "Precomputed lookup tables equal direct computation",
  "Every entry of every precomputed table equals what the rule it stands for gives when evaluated directly: initial probability estimates and cost records of new contexts, adaptation rates, deterministic-context predictions, interval tables of probability maps, binary logarithms. Looking up any valid index never fails.",
  ["inputs", "configurations"], "all entries of all tables, exhaustively",
  "tests touch a few entries",
  ["src/lut/mod.rs", "src/lut/estimator.rs", "src/lut/cost.rs", "src/lut/apm.rs", "src/lut/log2.rs"],
  [("table constructors", "src/lut")], [], ["table lookups"])

p("C23", "Out-of-order use of stateful components is always refused",
  "The stateful components of the compression pipeline (suffix-tree history source, predictor and its parts, mixers, probability maps, banks of estimators and mixers, caches of recent bytes) refuse every out-of-order call immediately with a panic, in every state reachable by legal calls and in every build mode, instead of continuing with wrong state. Legal call orders are never refused.",
  ["histories"], "every legal prefix followed by each illegal call",
  "tests only make legal calls, and a few fixed illegal ones",
  ["src/history/mod.rs", "src/history/tree/mod.rs", "src/predictor/mod.rs", "src/predictor/kits.rs", "src/predictor/stats.rs", "src/mixing/mixer.rs", "src/mixing/apm.rs", "src/util/last_bytes.rs"],
  [("assertions on protocol state", "DO_CHECKS guarded asserts")], [], ["panics"])

p("C24", "Statistics tables account for every coded bit and byte exactly once",
  "After any input has been predicted, the printed statistics tables are exact: each coded bit that had a context is counted, with its cost, in the one row that matches the length of its longest context and its number of deterministic contexts (both capped at 4), together with the average occurrence count of that context; each completed byte is counted, with the cost of its eight bits, under its own value; the totals and the average context length agree with the same bits. (A byte counts as completed when the next one begins, and byte values below 128 are shown.)",
  ["inputs"], "every input, including empty, one byte, and inputs long enough to saturate the counters",
  "no test looks at the printed tables; a bit entered in the wrong row, twice or not at all changes no prediction",
  ["src/predictor/stats.rs", "src/predictor/mod.rs", "src/history/mod.rs"],
  [("rows by context kind", "PredictionStatistics"), ("rows by byte value", "PredictionStatistics"), ("choice of the row", "Predictor::predict / update")],
  [("costs and occurrences per context type and per symbol", "what was coded where", "src/predictor/stats.rs")],
  ["printed statistics"])

p("C25", "Prediction composes its parts in order and trains each used part once",
  "Before each bit the predictor's probability equals what its parts give when they are composed separately from the same history. The matching contexts are taken from shortest to longest; each mixes the prediction of the shorter ones (one half below the first) with its own estimates, in the mixer selected by its order, whether it is the longest, how it relates to the next shorter context, its distance class and its own statistics. The result is refined by the maps selected by the unfinished byte and the last one to three bytes. After each bit, exactly the estimators, mixers, maps and cost records that took part are trained on that bit, each once, and nothing else changes.",
  ["inputs", "histories"], "every input, window and order; all distance classes, relations, run lengths and rivalries of cost records",
  "no test runs the predictor; a wrong cell, a missed or doubled training or a stale cost record still gives valid, decodable predictions",
  ["src/predictor/mod.rs", "src/predictor/chain.rs", "src/predictor/single.rs", "src/predictor/kits.rs", "src/predictor/post_process.rs"],
  [("chain of contexts", "ContextsChainPredictionMixer"), ("one context", "SingleContextPredictor"), ("final refinement", "PredictionFinalizer")],
  [("banks of estimators and mixers", "what each cell has learned", "src/predictor/kits.rs")],
  ["predicted probability before each bit"])

p("C26", "Failures of the underlying input or output are never swallowed",
  "When a reader or writer fails, at whatever byte and with whatever error, the program using the coder is told at once: coding panics (or, while finishing, the process aborts) instead of going on with missing or invented bytes, and nothing but the correct prefix has been written. The command-line programs end unsuccessfully, without reporting totals, when their file cannot be read to the end or their results cannot be written. Transfers that are merely short or interrupted change nothing.",
  ["fault_sequences", "crash_points", "inputs"], "every position at which an underlying transfer can fail, every error, and every pattern of short and interrupted transfers",
  "no test makes a read or a write fail, and most failures hit while the coder finishes or in the middle of a file",
  ["src/coding/encoder.rs", "src/coding/decoder.rs", "src/main.rs", "src/bin/print_histories.rs", "src/bin/entropy_simulations.rs"],
  [("output_byte and Drop", "Encoder"), ("next byte", "Decoder"), ("reading of the file", "main")],
  [], ["panics", "exit status", "bytes written", "standard output"])

p("C27", "Instances are independent: shared tables, threads, failures, processes",
  "What a coder, predictor, history source, mixer, map or any other instance computes depends on nothing but the calls made on it. It is the same when other instances use the same lookup tables, when their calls are interleaved with its own, when they run at the same time on other threads, when some of them were refused or failed halfway, when it has its own tables, and when it runs in another process. Lookup tables can be shared by threads without any unsynchronized access to memory that is written.",
  ["schedules", "histories", "inputs"], "every group of instances, every interleaving of their calls and every thread schedule",
  "tests use one instance at a time; state shared behind the interface shows only with a second instance, a second thread or after a failure, and per-process randomness only across processes",
  ["src/lut/mod.rs", "src/predictor/mod.rs", "src/history/fat_map.rs", "src/history/tree/mod.rs", "src/coding/encoder.rs"],
  [("lookup tables passed by reference", "LookUpTables"), ("all other state owned by its instance", "whole crate"), ("hash map keys compared, not trusted", "FatMapHistorySource")],
  [], ["every result of every call", "ThreadSanitizer reports"])

p("C28", "No memory error or undefined behaviour on any input",
  "Whatever the input, the window and the order, and also when a call is refused or a reader or writer fails, nothing in the crate reads or writes memory outside what it allocated, after it was freed or before it was initialized, or executes any other undefined behaviour.",
  ["inputs", "histories", "fault_sequences"], "every input, configuration and call sequence",
  "tests assert on results; an access that stays inside the heap, or a value read before it is written, usually changes no result that a test looks at",
  ["src/history/tree/nodes.rs", "src/history/window.rs", "src/lut/mod.rs", "src/coding/encoder.rs", "src/coding/decoder.rs"],
  [("checked indexing and initialized tables throughout", "whole crate")], [("tree nodes, window, tables", "all indexed memory", "src/history, src/lut")],
  ["AddressSanitizer, MemorySanitizer, valgrind and Miri reports"])

p("C29", "Memory and time are bounded by the configuration, not by the input",
  "However long the input and whatever it contains, the memory that a history source with a sliding window, the predictor, a coder or any component of fixed size keeps in use is bounded by its configuration (window, order, table sizes) and stops growing once the window has been filled; an encoder keeps no more memory for a longer run of undecided bytes; and everything is given back when the instance ends, also after a refusal. The work for one byte does not grow with the length of the input or with the size of the window: every stretch of 1024 bytes is handled in a small, input-independent processor time per byte, also for inputs made of repeats. The command-line program keeps the same bounds.",
  ["inputs", "configurations"], "every input, at any length; every window and order",
  "tests use inputs of some hundred bytes, at which memory that grows with each byte, or work that grows with the window, is invisible",
  ["src/history/tree/mod.rs", "src/history/tree/nodes.rs", "src/history/window.rs", "src/predictor/mod.rs", "src/coding/encoder.rs", "src/main.rs"],
  [("reuse of deleted nodes", "src/history/tree/nodes.rs"), ("sliding of the window", "src/history/window.rs"), ("counted pending bytes", "Encoder")],
  [("tree nodes, window", "as much as the window needs", "src/history/tree")], ["bytes of heap memory in use", "processor time per byte", "resident memory of the program"])

p("C30", "Results do not depend on the platform: word size or byte order",
  "Every result — the compressed bytes, the predicted probabilities, the states that history sources give, the contents of the lookup tables, costs, estimates, mixer outputs, hashes and map contents — is the same whether addresses and sizes have 32 or 64 bits and whether numbers are stored with the low or the high byte first, and in builds with and without overflow checks. Work that fits in the memory of the smaller platform is not refused there. A file compressed on one machine is therefore decoded on any other.",
  ["inputs", "configurations"], "every input and configuration, on every platform that the crate can be built for",
  "tests run on one platform; arithmetic in a type as wide as an address, or on the bytes of a number in the machine's order, gives the same results there",
  ["src/fixed_point/mod.rs", "src/util/hash.rs", "src/history/fat_map.rs", "src/history/tree/mod.rs", "src/history/window.rs", "src/coding/encoder.rs", "src/coding/decoder.rs", "src/lut/mod.rs"],
  [("arithmetic in types of fixed width", "fix_u32, fix_i32, fix_u64, fix_i64"), ("indices converted from and to usize", "whole crate"), ("hash of the last bytes", "Fnv1A")],
  [], ["every result of every call", "compressed bytes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
