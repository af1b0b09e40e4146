#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script because the entries are long).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Theta sketch retains exactly the distinct keys hashed below its threshold",
  "After any history of updates, trims and resets, a theta sketch retains exactly the hashes of the distinct keys seen since the last reset that lie below its current threshold, whatever the order and multiplicity of the updates. The threshold never rises between resets, stays at its starting value until more than the nominal number of distinct keys survived, never leaves fewer than the nominal number of entries once it has dropped, and the estimate is the retained count divided by the threshold (the exact distinct count while nothing was sampled away). Compacting, ordered or not, preserves the retained set, the threshold, emptiness and the estimate.",
  ["inputs", "histories", "configurations"], "all update/trim/reset/compact sequences, key types, nominal sizes, resize factors, sampling probabilities and seeds",
  "Tests feed one increasing integer stream per configuration and compare estimates with a tolerance; they never compare the retained set with the set of inputs, nor explore orders, duplicates around a resize/rebuild, or trims in the middle of a stream.",
  ["theta/update_sketch.go", "theta/hashtable.go", "theta/compact_sketch.go", "theta/sketch.go", "internal/quick_select.go"],
  [("open-addressing table with resize and quick-select rebuild", "theta/hashtable.go"), ("update entry points and hashing", "theta/update_sketch.go")],
  [("theta", "upper limit on retained hashes", "theta/hashtable.go"), ("entries", "retained hashes", "theta/hashtable.go")],
  ["QuickSelectUpdateSketch.All/Theta64/NumRetained/Estimate", "CompactSketch.All"])
p("C02", "Theta set operations compute exact set algebra below the common threshold",
  "For any theta sketches, in any form (updatable, compact ordered or unordered, wrapped bytes), union retains exactly the hashes of its inputs below the smallest input threshold, further lowered only to keep at most the nominal number of entries; intersection retains exactly the common hashes and difference exactly the hashes of the first not in the second, below the smaller of the two thresholds. The result does not depend on operand form or, for union and intersection, on operand order, is empty exactly when the exact set operation on the inputs says so, and no operation changes its inputs or a result returned earlier. Non-empty operands built with a different seed are never combined silently: an error is returned.",
  ["inputs", "histories", "configurations"], "all pairs and short sequences of sketches over an alphabet of empty, exact, estimating, degenerate and sampled sketches in every form",
  "Tests use a handful of range-shaped inputs (half overlap, disjoint) and check estimates approximately; combinations of form x mode x emptiness x order are not enumerated.",
  ["theta/union.go", "theta/intersection.go", "theta/a_not_b.go", "theta/set_operation.go", "theta/wrapped_compact_sketch.go"],
  [("union gadget and result trimming", "theta/union.go"), ("intersection stateful table", "theta/intersection.go"), ("sort-based and hash-based difference", "theta/a_not_b.go")],
  None, ["Union.Result", "Intersection.Result", "ANotB"])
p("C03", "Theta serialization is lossless in every format",
  "Serializing any compact theta sketch in the plain or the compressed format and decoding or wrapping the bytes yields a sketch with the same threshold, the same retained hashes in the same order, the same emptiness, ordering, seed identity and estimates; serializing that again gives the same bytes. Decoding or wrapping with a different seed is rejected unless the sketch is empty. The advertised serialized size equals the number of bytes written and never exceeds the advertised maximum.",
  ["inputs", "configurations"], "all retained-set shapes: 0..n entries, every packing width of deltas, every tail length of a packed block, thresholds at and below the start value",
  "Tests round-trip a few estimates; the bit-packer has one code path per width (1..63) and per tail length and tests compare only totals.",
  ["theta/encoder.go", "theta/decoder.go", "theta/bit_packing.go", "theta/compact_sketch.go", "theta/wrapped_compact_sketch.go"],
  [("version 3 and 4 encoders/decoders", "theta/encoder.go, theta/decoder.go"), ("width-specialised bit packing", "theta/bit_packing.go")],
  None, ["MarshalBinary", "Decode", "WrapCompactSketch"])
p("C04", "Theta and tuple bounds and Jaccard similarity are ordered, nested, exact if exact",
  "For every theta or tuple sketch the lower bound never exceeds the estimate, the upper bound never falls below it, bounds for more standard deviations enclose those for fewer, the lower bound is never below the retained count, and both bounds equal the estimate when nothing was sampled away. Jaccard similarity returns 0 <= lower <= estimate <= upper <= 1, is symmetric, estimates 1 for two sketches of the same set that retain entries, and is exactly |A and B|/|A or B| when neither input was sampled.",
  ["inputs", "configurations"], "all (retained count, threshold, number of standard deviations) reached by the histories and sampling probabilities, all pairs of small sets",
  "Tests compare a few numeric constants; the bound formulas switch between several approximations at boundaries of count and threshold that tests do not sweep.",
  ["internal/binomialbounds", "theta/jaccard_similarity.go", "tuple/jaccard_similarity.go", "theta/bounds_on_ratios_in_sketched_sets.go", "theta/compact_sketch.go", "theta/update_sketch.go"],
  [("binomial bounds case analysis", "internal/binomialbounds"), ("ratio bounds", "theta/bounds_on_ratios_in_sampled_sets.go")],
  None, ["LowerBound/UpperBound/Estimate", "Jaccard, JaccardSimilarity"])
p("C05", "Tuple sketches keep theta's key set and fold every value into its key's summary",
  "A tuple or array-of-numbers sketch retains the same hashed keys and threshold as a theta sketch with the same configuration fed the same keys, and the summary kept for each retained key is exactly the fold, in arrival order, of all values supplied for that key. This holds through every resize, rebuild, trim, reset, compaction and filter, and a summary is never shared between two keys or between two sketches.",
  ["inputs", "histories", "configurations"], "all sequences of (key, value) updates, trims, resets, compactions around table resizes and rebuilds",
  "Tests sum one constant per key; they do not check summaries per key with order-sensitive folds nor that a compact copy stays unchanged when its source keeps being updated.",
  ["tuple/update_sketch.go", "tuple/hashtable.go", "tuple/compact_sketch.go", "tuple/arrayofnumbers_update_sketch.go", "tuple/arrayofnumbers_compact_sketch.go", "tuple/arrayofstrings_sketch.go"],
  [("entry table carrying summaries through resize/rebuild", "tuple/hashtable.go"), ("update policy application", "tuple/update_sketch.go")],
  None, ["All", "Compact", "Filter"])
p("C06", "Tuple set operations combine summaries by policy, leaving inputs untouched",
  "Union, intersection and difference of tuple and array-of-numbers sketches keep the same keys and threshold as the corresponding theta operations, and each surviving key's summary is the policy's combination of the matching input summaries in the order they were presented (difference keeps the first operand's). Neither the operands nor any sketch returned earlier by the operation changes when further sketches are added or when the returned sketch is modified.",
  ["inputs", "histories", "configurations"], "all short sequences of operands (empty, exact, estimating, overlapping) in update/compact ordered/unordered form, with results taken after each step",
  "Tests check one or two operand pairs with commutative sums and never re-inspect the operands or an earlier result after continuing.",
  ["tuple/union.go", "tuple/intersection.go", "tuple/a_not_b.go", "tuple/arrayofnumbers_union.go", "tuple/arrayofnumbers_intersection.go", "tuple/arrayofnumbers_a_not_b.go"],
  [("policy application on collision", "tuple/union.go, tuple/intersection.go")], None, ["Union.Result", "Intersection.Result", "ANotB"])
p("C07", "Tuple-family serialization is lossless",
  "Encoding and decoding any compact tuple, array-of-numbers or array-of-strings sketch preserves the threshold, retained keys in order, every summary, emptiness, ordering and estimates, and encoding the decoded sketch gives the same bytes. A sketch that retains entries is never decoded with a different seed.",
  ["inputs", "configurations"], "all retained-set shapes and summary shapes (numbers of values 1..n, empty and long strings, special floating-point values)",
  "Tests use one or two sizes and one summary shape.",
  ["tuple/encoder.go", "tuple/decoder.go", "tuple/arrayofnumbers_sketch_encoder.go", "tuple/arrayofnumbers_sketch_decoder.go", "tuple/arrayofstrings_sketch.go"],
  [("encoders and decoders", "tuple/encoder.go, tuple/decoder.go")], None, ["MarshalBinary/Encode", "Decode"])

p("C08", "HLL content depends only on the distinct items, identically for 4, 6, 8 bits",
  "After any history of updates, in any order, with duplicates and resets, every HLL register equals the largest value hashed to it by the items seen since the last reset, identically for the 4-, 6- and 8-bit forms, and the composite estimate is a function of the set of distinct items only. The order-sensitive estimate is identical across the three forms for the same update sequence, and converting or copying a sketch, also on growth from list to set to full array, loses nothing and leaves the source untouched.",
  ["inputs", "histories", "configurations"], "all update orders of a small adversarial alphabet (colliding slots, registers above the 4-bit range, base-level shifts) and long streams, for the lgK range",
  "Tests feed consecutive integers and check estimates within a tolerance; exception-table registers, offset shifts and permutation invariance are only hit by accident.",
  ["hll/hll_sketch.go", "hll/hll_4array.go", "hll/hll_4update.go", "hll/hll_6array.go", "hll/hll_8array.go", "hll/aux_hash_map.go", "hll/coupon_list.go", "hll/coupon_hash_set.go", "hll/hll_array.go"],
  [("4-bit array with offset and exception table", "hll/hll_4array.go, hll/aux_hash_map.go"), ("mode promotion", "hll/coupon_list.go, hll/coupon_hash_set.go")],
  [("registers", "max value per slot", "hll/hll_array.go")], ["serialized updatable image", "GetCompositeEstimate", "GetEstimate"])
p("C09", "HLL serialization round trip preserves content and future behaviour",
  "An HLL sketch decoded from its compact or updatable serialization answers every query as the original does, serializes to the same bytes (up to the order of entries inside hash tables), and continues to do so when both are given the same further updates or merged into the same union.",
  ["inputs", "histories", "configurations"], "all states reached by the histories of C08 (every mode, target type, exception count) x both formats x continuations",
  "Tests compare the estimate right after decoding; decoded sketches are rarely updated further.",
  ["hll/to_slice_impl.go", "hll/preamble_utils.go", "hll/hll_sketch.go", "hll/hll_4array.go", "hll/aux_hash_map.go"],
  [("encoders/decoders per mode", "hll/to_slice_impl.go, hll/hll_4array.go")], None, ["ToCompactSlice", "ToUpdatableSlice", "NewHllSketchFromSlice"])
p("C10", "HLL union equals one sketch of the combined input at the common precision",
  "For any sequence of input sketches of any precision, target type and mode, fed in any order and mixed with direct updates, the union's registers are the per-slot maxima that a single sketch of the combined stream would have at the smallest precision involved (the union's maximum or the smallest full-array input), its composite estimate is that of such a sketch, and results are independent of the order of inputs. Inputs and previously returned results are not changed, and estimates and bounds of the union agree with those of the result sketch it returns.",
  ["inputs", "histories", "configurations"], "all sequences of up to three inputs from an alphabet covering modes, precisions above and below the union's, target types, interleaved with queries",
  "Tests cover a few (lgK, mode) pairs in one order and check estimates with tolerances.",
  ["hll/union.go", "hll/hll_8array.go", "hll/hll_array.go"],
  [("union case analysis on mode and precision", "hll/union.go")], None, ["Union.GetResult", "Union.GetEstimate", "Union.UpdateSketch"])
p("C11", "HLL and CPC bounds enclose their estimates",
  "For every HLL sketch, HLL union result and CPC sketch (live, decoded, wrapped or merged), the lower bound never exceeds the estimate and the upper bound never falls below it for one, two and three standard deviations, and more standard deviations give an enclosing interval. The estimate of an empty sketch is zero, the estimate never decreases as more items are added to one sketch, and it is within one half item of the distinct count while an HLL sketch still stores individual coupons.",
  ["inputs", "histories", "configurations"], "every prefix of long distinct streams for the lgK range, both estimators (sequential and merged)",
  "Tests check a few final counts with wide tolerances.",
  ["hll/hll_estimator.go", "hll/relative_error_tables.go", "hll/hll_array.go", "cpc/confidence.go", "cpc/icon_estimator.go", "cpc/cpc_sketch.go", "cpc/cpc_wrapper.go"],
  [("bounds", "hll/hll_estimator.go, cpc/confidence.go")], None, ["GetLowerBound/GetUpperBound/GetEstimate"])

p("C12", "CPC content depends only on the set of distinct items",
  "After any history of updates, in any order and with any duplicates, a CPC sketch represents exactly the set of (row, column) coupons of the distinct items seen: two sketches fed permutations of the same items are indistinguishable through merging and merged serialization, and repeated items never change a sketch. Copying a sketch yields an independent equal sketch.",
  ["inputs", "histories", "configurations"], "update orders of an adversarial alphabet (colliding rows, very high columns, early-zone zeros) and every prefix of long streams through all flavors and window offsets",
  "Tests validate random streams at a few checkpoints; deletions of surprising zeros, wrap-around clusters of the pair table and window shifts are hit only by chance.",
  ["cpc/cpc_sketch.go", "cpc/pair_table.go", "cpc/cpc_union.go"],
  [("sliding window plus surprising-value table", "cpc/cpc_sketch.go"), ("pair table with deletion", "cpc/pair_table.go")],
  None, ["CpcUnion.GetBitMatrix", "ToCompactSlice"])
p("C13", "CPC union equals one sketch of the combined input at the smallest precision",
  "For any sequence of CPC inputs of any precision and flavor in any order, the union's coupon set is exactly the union of the inputs' coupons folded to the smallest precision seen, and its result equals, coupon for coupon and in its merged estimate, the union of a single sketch fed the combined stream. Inputs and earlier results are unaffected, and inputs with a different seed are rejected.",
  ["inputs", "histories", "configurations"], "all sequences of up to three inputs covering empty/sparse/hybrid/pinned/sliding flavors and precisions",
  "Tests merge a few pairs of equal precision; downsampling with graduation between flavors is barely touched.",
  ["cpc/cpc_union.go", "cpc/cpc_sketch.go", "cpc/merging_validation.go"],
  [("union state machine", "cpc/cpc_union.go")], None, ["CpcUnion.Update", "GetResult", "GetBitMatrix"])
p("C14", "CPC serialization round trip preserves content and future behaviour",
  "A CPC sketch decoded from its serialized form has the same coupons, estimate and bounds, serializes to the same bytes, and stays indistinguishable from the original under the same further updates and merges; a wrapped image answers the same estimate and bounds without decoding. Decoding with the wrong seed is rejected.",
  ["inputs", "histories", "configurations"], "states at every stream prefix through all flavors, window offsets and pseudo-phases, plus merged results, x continuations",
  "Tests round-trip a few counts per flavor and rarely continue updating the decoded sketch.",
  ["cpc/cpc_compressed_state.go", "cpc/utils.go", "cpc/compression_data.go", "cpc/cpc_wrapper.go", "cpc/cpc_sketch.go"],
  [("entropy coder of window and pairs", "cpc/cpc_compressed_state.go")], None, ["ToCompactSlice", "NewCpcSketchFromSlice", "NewCpcWrapperFromBytes"])

p("C15", "KLL conserves weight, extremes and unbiased ranks under every coin outcome",
  "After any history of updates and merges and for every outcome of its internal coin flips, a KLL sketch reports the exact item count, the exact minimum and maximum, retained items that all occurred in the input, retained weights that sum to the count, and it is exact (every rank correct) until it first has to discard. Averaged over all equally likely coin outcomes each rank estimate equals the true rank, merging leaves the source unchanged, and retained size stays within the sketch's capacity bound.",
  ["inputs", "histories", "configurations"], "all coin outcome vectors of short histories with small k, and bounded deviations from fixed coin policies on long histories, over update and merge sequences",
  "Tests run with whatever coins the process draws and check ranks within an error bound; a bias or a lost weight on one coin path in one merge shape goes unseen.",
  ["kll/items_sketch.go", "kll/utils.go"],
  [("level compaction and merge", "kll/items_sketch.go")], [("levels", "item levels of doubling weight", "kll/items_sketch.go")],
  ["GetN", "GetMinItem/GetMaxItem", "GetIterator", "GetRank"])
p("C16", "REQ conserves weight, extremes and unbiased ranks under every coin outcome",
  "After any history of updates and merges and for every outcome of its internal coin flips, a REQ sketch reports the exact item count, exact minimum and maximum, retained items that all occurred in the input with weights summing to the count, and is exact until it first has to discard. In high-rank-accuracy mode the largest items and in low-rank-accuracy mode the smallest items are always retained with exact rank, averaged over coin outcomes every rank estimate equals the true rank, and merging leaves the source unchanged.",
  ["inputs", "histories", "configurations"], "all coin outcome vectors of short histories, bounded deviations on long histories, update and merge sequences, both accuracy modes",
  "Tests use the process's random coins and approximate ranks.",
  ["req/sketch.go", "req/compactor.go"],
  [("relative compactor schedule", "req/compactor.go")], None, ["N", "MinItem/MaxItem", "All", "Rank"])
p("C17", "Quantile queries are monotone, mutually consistent and free of side effects",
  "For every KLL and REQ sketch state, ranks are monotone in the item and quantiles in the rank, lie within the input range, and are consistent with each other and with the retained weighted items for both inclusive and exclusive search; CDF and PMF agree with the ranks at the split points, PMF sums to one, partition boundaries are ordered, and rank bounds enclose the rank within [0,1]. Asking any query, in any order and any number of times, never changes the answer of any other query or later behaviour.",
  ["inputs", "histories", "configurations"], "all small states (item multiset x levels) x all queries and split points, all ordered pairs of queries before the observed one",
  "Tests query a freshly filled sketch once per method; interactions between cached sorted views and queries or updates are not enumerated.",
  ["kll/items_sketch.go", "kll/items_sketch_sorted_view.go", "kll/items_sketch_partition_boundaries.go", "req/sketch.go", "common/quantiles", "internal/quantiles", "internal/inequality_search.go"],
  [("cached sorted view", "kll/items_sketch_sorted_view.go"), ("inequality search", "internal/inequality_search.go")],
  None, ["GetRank/GetQuantile/GetCDF/GetPMF/GetPartitionBoundaries", "Rank/Quantile/CDF/PMF"])
p("C18", "KLL serialization round trip preserves content and future behaviour",
  "A KLL sketch of any supported item type decoded from its bytes has the same count, k, minimum, maximum, retained weighted items and answers every query alike, serializes to the same bytes, reports its serialized size correctly, and behaves identically under the same further updates, merges and coin outcomes.",
  ["inputs", "histories", "configurations"], "all states of small histories (empty, single, multi-level) for each item type including empty strings, x continuations",
  "Tests round-trip a few sizes and compare the count and extremes.",
  ["kll/items_sketch.go", "kll/preamble_utils.go", "common/item_sketch_string.go", "common/item_sketch_double.go", "common/item_sketch_long.go", "common/item_sketch_float.go"],
  [("encoder and decoder", "kll/items_sketch.go"), ("item serializers", "common/")], None, ["ToSlice", "NewKllItemsSketchFromSlice"])
p("C19", "t-digest conserves weight, brackets by extremes and stays monotone",
  "After any history of updates, merges and compressions a t-digest reports the exact total weight and the exact minimum and maximum of the finite inputs, ranks that are monotone and within [0,1], and quantiles that are monotone and within [min,max], with the minimum and maximum returned at ranks 0 and 1; between two centroids that stand for several values, rank and quantile are inverse to each other. CDF and PMF agree with ranks and sum to one, non-finite inputs are rejected or ignored consistently, queries and merges do not change their operands' answers, and the number of centroids stays bounded.",
  ["inputs", "histories", "configurations"], "all short sequences over an alphabet of values (duplicates, infinities, extremes) and operations, and every prefix of long sorted/reversed/clustered streams, for several compression parameters",
  "Tests use uniform streams and approximate quantiles.",
  ["tdigest/double.go"], [("centroid merging and buffering", "tdigest/double.go")], None, ["TotalWeight, Min, Max, Rank, Quantile, CDF, PMF"])
p("C20", "t-digest serialization round trip preserves content and future behaviour",
  "A t-digest encoded with or without its buffer, through either encoder, and decoded through either decoder has the same weight, extremes, ranks and quantiles, encodes to the same bytes, and continues identically under further updates and merges.",
  ["inputs", "histories", "configurations"], "all states of C19's histories x both encoders x both buffer options x both decoders x continuations",
  "Tests round-trip a few sizes.",
  ["tdigest/double_encoder.go", "tdigest/double_decoder.go"], [("encoders and decoders", "tdigest/double_encoder.go, tdigest/double_decoder.go")], None, ["EncodeDouble", "DecodeDouble"])

p("C21", "Frequent-items bounds always bracket the true frequency",
  "For every history of weighted updates and merges, the frequent-items sketches report for every item a lower bound not above and an upper bound not below its true total weight, with an estimate in between and a gap never larger than the reported maximum error, and report the exact total stream weight; the bounds are exact until something had to be evicted. No-false-negative results contain every item whose true weight exceeds the threshold used and no-false-positive results contain only items whose true weight reaches it.",
  ["inputs", "histories", "configurations"], "all update/merge/reset sequences over a small item alphabet with weights that force evictions, for both the long and the generic item sketches, and long skewed streams",
  "Tests check a few streams; total eviction, merges after eviction and the hash-map deletion paths depend on rare shapes.",
  ["frequencies/longs_sketch.go", "frequencies/items_sketch.go", "frequencies/reverse_purge_long_hash_map.go", "frequencies/reverse_purge_item_hash_map.go"],
  [("reverse purge hash map", "frequencies/reverse_purge_long_hash_map.go"), ("offset accounting", "frequencies/longs_sketch.go")],
  [("offset", "total weight subtracted by purges", "frequencies/longs_sketch.go")], ["GetLowerBound/GetUpperBound/GetEstimate", "GetFrequentItems"])
p("C22", "Frequent-items serialization preserves every bound and future behaviour",
  "A frequent-items sketch restored from its bytes (or, for the long-keyed sketch, its string form) reports the same stream weight, maximum error and the same bounds for every item, and continues to satisfy the same bounds under further updates and merges, also when nothing is currently tracked.",
  ["inputs", "histories", "configurations"], "all states of C21's histories x both forms x continuations, keys over the whole key range",
  "Tests round-trip a few small sketches.",
  ["frequencies/longs_sketch.go", "frequencies/items_sketch.go", "frequencies/preamble_utils.go"],
  [("serialization", "frequencies/longs_sketch.go, frequencies/items_sketch.go")], None, ["ToSlice", "ToString", "NewLongsSketchFromSlice", "NewLongsSketchFromString", "NewFrequencyItemsSketchFromSlice"])
p("C23", "Count-min never underestimates and merging equals the combined stream",
  "For every stream of non-negative weights a count-min sketch's estimate of any item is at least its true weight, at most the total weight, and lies between the reported bounds; merging two compatible sketches gives exactly the state of one sketch fed both streams, and incompatible or self merges are refused without changing anything. Serializing and decoding preserves every estimate, and damaged, truncated or wrong-seed bytes are rejected.",
  ["inputs", "histories", "configurations"], "all update/merge sequences over small alphabets with colliding items, tables from 1x3 upward, all key types",
  "Tests use one table shape and a few strings.",
  ["count/count_min_sketch.go", "count/utils.go"], [("row-wise counters with minimum", "count/count_min_sketch.go")], None, ["GetEstimate", "GetLowerBound", "GetUpperBound", "Merge", "Serialize/Deserialize"])
p("C24", "Bloom filter has no false negatives and its set operations act bit by bit",
  "Every item ever added to a Bloom filter is reported present until the filter is reset, a combined query-and-update returns the answer of a query made just before it and leaves the filter as an update would, and the used-bit count is the number of set bits. Union, intersection and inversion act bit by bit on compatible filters (so a union answers present for everything either side does), incompatible filters are refused unchanged, and serialization preserves all answers and bits.",
  ["inputs", "histories", "configurations"], "all operation sequences over a small item alphabet and two filters, with sizes around word boundaries, many hash counts and seeds, all item types",
  "Tests check a few items on one size; word-boundary sizes and operation sequences on two filters are not enumerated.",
  ["filters/bloom_filter.go", "filters/bit_array.go", "filters/bloom_filter_builder.go", "filters/preamble_utils.go"],
  [("double hashing to bits", "filters/bloom_filter.go"), ("bit array operations", "filters/bit_array.go")], None, ["Query/Update/QueryAndUpdate", "Union/Intersect/Invert", "ToSlice"])

p("C25", "Reservoir samples are uniform, of the right size and drawn from the stream",
  "After n updates a reservoir of capacity k holds min(n,k) items, each a distinct stream position, reports n exactly, and, over the random choices, every stream position is retained with equal probability min(1,k/n); merging reservoirs of any sizes keeps these guarantees for the concatenated stream, with a capacity equal to the union's maximum or to that of a participating reservoir and never above the maximum. Subset-sum estimates are exact while nothing was dropped, lie between their bounds, and report n as the total. Sources and earlier results are unchanged by merging, and serialization preserves capacity, count and samples exactly.",
  ["inputs", "histories", "configurations"], "all random-choice outcomes for small k and n, all merge shapes of two or three reservoirs",
  "Tests check sizes and loose statistics of one random run; exact inclusion probabilities need every outcome of every random draw.",
  ["sampling/reservoir_items_sketch.go", "sampling/reservoir_items_union.go"],
  [("replacement rule", "sampling/reservoir_items_sketch.go"), ("two-way merge", "sampling/reservoir_items_union.go")], None, ["Samples", "N", "K", "Result"])
p("C26", "VarOpt samples conserve total weight, keep heavy items exactly and are unbiased",
  "After any stream of positive-weight items a VarOpt sketch of capacity k holds min(n,k) items of the stream, the weights it reports sum to the total stream weight, every item heavier than the common reported weight of the light items is kept with its exact weight, and no reported weight is below the item's true weight. Averaged over the random choices each item's reported weight equals its true weight, and subset-sum estimates lie between their bounds with the reported total equal to the total weight.",
  ["inputs", "histories", "configurations"], "all random-choice outcomes of short weighted streams for small k, long streams under bounded deviations from fixed random policies",
  "Tests check a few invariants on one random run.",
  ["sampling/varopt_items_sketch.go"], [("heavy/reservoir split and candidate deletion", "sampling/varopt_items_sketch.go")],
  [("h, r, totalWeightR", "heavy items, reservoir items and reservoir weight", "sampling/varopt_items_sketch.go")], ["All/Samples", "EstimateSubsetSum"])
p("C27", "VarOpt union conserves weight and capacity and leaves its inputs alone",
  "For any sequence of VarOpt sketches given to a union, the result holds items of the combined streams, at most the union's capacity, its reported weights sum to the total combined weight and its count is the combined count; averaged over random choices each item's reported weight is its true weight. Inputs and earlier results are unchanged, the result remains usable for further updates and serialization.",
  ["inputs", "histories", "configurations"], "all sequences of up to three inputs (empty, warmup, sampling, different capacities, large and small weights) x random outcomes",
  "Tests merge a few pairs.",
  ["sampling/varopt_items_union.go", "sampling/varopt_items_sketch.go"], [("gadget with marks and result resolution", "sampling/varopt_items_union.go")], None, ["VarOptItemsUnion.UpdateSketch/Result"])
p("C28", "Sampling sketch serialization preserves content and future behaviour",
  "A VarOpt sketch, VarOpt union or reservoir union restored from its bytes reports the same capacity, count, items and weights and continues to accept updates and merges exactly as the original would for the same random outcomes.",
  ["inputs", "histories", "configurations"], "all states of C26/C27 histories (empty, warmup, full, heavy-only, light-only) x continuations",
  "Tests compare the decoded samples but do not continue updating a decoded sketch.",
  ["sampling/varopt_items_sketch_encoder.go", "sampling/varopt_items_sketch_decoder.go", "sampling/varopt_items_union_encoder.go", "sampling/varopt_items_union_decoder.go", "sampling/reservoir_items_union.go"],
  [("encoders and decoders", "sampling/*_encoder.go, sampling/*_decoder.go")], None, ["Encode", "Decode"])
p("C29", "Truncated serialized sketches are rejected without crashing",
  "For every sketch family that can be serialized, handing any strict prefix of a valid serialized image to its decoder returns an error: it never panics, hangs, allocates memory out of proportion to the input, or silently yields a sketch.",
  ["inputs", "crash_points"], "every prefix length of every image in an alphabet covering each family, mode and format",
  "Tests try a couple of short buffers per family.",
  ["theta/decoder.go", "tuple/decoder.go", "hll/hll_sketch.go", "cpc/utils.go", "kll/items_sketch.go", "tdigest/double_decoder.go", "frequencies/longs_sketch.go", "count/count_min_sketch.go", "filters/bloom_filter.go", "sampling"],
  [("length checks in decoders", "*/decoder.go and FromSlice constructors")], None, ["decoder return values"])
p("C30", "Sketch instances are independent of one another",
  "Operations on one sketch never affect another: interleaving the updates, queries, merges and serializations of two instances in any way gives each the same answers it would give alone with the same random outcomes, and a copy, a result, a serialized image or a decoded sketch stays unaffected by later changes to what it was made from, including reuse of the byte slice it was decoded from.",
  ["histories", "schedules"], "all interleavings of two short operation programs on two instances of each family, and mutation of every source after the derived object was made",
  "Tests use one instance at a time.",
  ["theta", "tuple", "hll", "cpc", "kll", "req", "tdigest", "frequencies", "count", "filters", "sampling", "common"],
  [("no shared mutable package state; deep copies", "constructors, Copy, Result, FromSlice functions")], None, ["all queries"])

p("C31", "Different sketch objects may be used by different goroutines at the same time",
  "Distinct sketch objects share no mutable state, even when one was copied, decoded, derived or returned as a result from another, and from the very first use in a process: using each from its own goroutine at the same time, under any interleaving, gives every goroutine exactly the answers it would get alone and involves no data race. Objects that never change (compact sketches, results, serialized images and read-only wrapped sketches) may be read by several goroutines at once in the same way. (A single updatable object shared between goroutines is outside this promise.)",
  ["schedules", "histories"], "all pairs of operations by two goroutines on every pair of objects in populations reached by every short history, all interleavings, warm and cold process state",
  "Tests are sequential; a race between two sketches needs a schedule nobody samples, and the lazily filled tables it would involve are warm after the first test.",
  ["theta", "tuple", "hll", "cpc", "kll", "req", "tdigest", "frequencies", "count", "filters", "sampling", "internal"],
  [("no lazily filled or scratch package state; no memoising reads in immutable objects", "package-level variables and compact/wrapped sketches")], None, ["all queries", "race detector"])

p("C32", "Estimates and confidence bounds are calibrated",
  "The numbers that queries report are the ones the sketches' theory promises, not merely plausible ones. Theta and tuple bounds at 1, 2, 3 standard deviations leave the corresponding normal tail under the exact binomial law of the retained count; Jaccard bounds and the subset-sum intervals of reservoir and VarOpt samples match the exact Clopper-Pearson interval at two deviations, corrected for the sampling rate. The order-independent CPC estimate is the item count whose expected number of coupons is the one stored; the composite HLL estimate is the item count expected to leave that many empty registers while the sketch is sparse, otherwise the one whose expected raw estimate is observed; and HLL and CPC interval widths follow the published relative standard errors, in order and merged.",
  ["inputs"], "all retained counts, sampling rates, coupon counts, register histograms and match counts within bounds, all supported precisions",
  "Tests compare estimates of a few streams with generous tolerances; a wrong table entry, coefficient or threshold shows only at the counts that use it.",
  ["internal/binomialbounds", "internal/binomialproportionsbounds", "theta/bounds_on_ratios_in_sampled_sets.go", "theta/jaccard_similarity.go", "tuple/jaccard_similarity.go", "sampling/utils.go", "cpc/icon_estimator.go", "cpc/confidence.go", "hll/hll_estimator.go", "hll/composite_interpolation_xtables.go", "hll/harmonic_numbers.go", "hll/relative_error_tables.go"],
  [("estimator tables, polynomial coefficients and approximations", "tables and formulas of the estimators")], None, ["Estimate", "LowerBound", "UpperBound", "Jaccard", "EstimateSubsetSum"])

p("C33", "Sketches deliver the accuracy they were sized for",
  "Whatever the items, their order and the way they were split over merged sketches, a sketch's answers err no more than its configuration advertises: a Bloom filter sized for n items and a false-positive rate reports non-members present at about the rate expected of independent hashes and no more often than asked; a count-min table of the suggested size overestimates by more than the relative error in no more than the allowed share of items; theta, HLL and CPC estimates are unbiased with the published relative standard error and their bounds cover the true count as often as promised; KLL rank, mass and quantile errors stay within the normalized rank errors at 99%; t-digest rank and quantile errors stay within its scale function's cluster sizes; and the frequent-items maximum error never exceeds the a priori error.",
  ["inputs", "histories"], "grids of configurations, stream orders, merge splits and coin sequences, all probes of a range on each",
  "Tests check one stream per family with a wide margin; correlated hash functions, a wrong compaction schedule, cluster limit or sizing formula leaves every single answer plausible.",
  ["filters", "count", "theta", "hll", "cpc", "kll", "tdigest", "frequencies", "internal/murmur3.go"],
  [("hash position derivation; sizing formulas; compaction, cluster and purge rules", "filters/bloom_filter.go, count/utils.go, tdigest/double.go, kll/items_sketch.go, frequencies/reverse_purge_*.go")], None, ["estimates", "bounds", "membership answers"])

p("C34", "Serialized images keep the published binary layout",
  "Every image the library writes says, to a reader that knows only the published layout, exactly what the sketch holds: family, version, flags, parameters, seed hash, counts, threshold, entries, summaries, coupons, registers, estimator state, levels, centroids, counters, bits, samples and weights, with unused bytes zero and no bytes left over; and an image laid out that way by another writer is read as exactly that content. This holds for every sketch and union that can be serialized (theta in both versions, tuple, arrays of numbers, strings, HLL, CPC, KLL, t-digest, frequencies, count-min, Bloom, reservoir, VarOpt and their unions).",
  ["inputs", "configurations", "histories"], "all small contents of every family in every mode, flavor, packing width, compression code and item type",
  "Tests that write and read back agree with themselves: an encoder and a decoder that drift together keep every round trip intact, while stored images and other languages' readers break; the files from other languages cover a dozen contents per family and only the reading side.",
  ["theta/encoder.go", "theta/bit_packing.go", "tuple/encoder.go", "hll/to_slice_impl.go", "cpc/cpc_compressed_state.go", "cpc/compression_data.go", "kll/items_sketch.go", "tdigest/double_encoder.go", "frequencies", "count/count_min_sketch.go", "filters/bloom_filter.go", "sampling"],
  [("preambles, packing, entropy coding", "encoders of every family")], None, ["bytes of every image", "contents of sketches read from independently written images"])

p("C35", "Faults while encoding and decoding are reported",
  "Encoding to an io.Writer that fails after any number of bytes, for good or once, by a cut or a refused write, returns an error and never success, has written nothing but a prefix of the image up to the fault, and leaves the sketch able to produce the complete image afterwards. Decoding from an io.Reader gives the same sketch however the bytes are split over reads (empty reads, end of file together with data) and returns an error and no sketch when the reader fails before the image is complete. When a caller's item serializer or summary codec fails at any one of its calls, the encoding or decoding returns an error without panicking and hands out no sketch.",
  ["inputs", "schedules"], "all fault points of writer, reader and codec and all two-piece splits, over every type with a stream encoder or decoder or a caller's codec, in every mode and format",
  "Tests use writers, readers and codecs that never fail and deliver everything at once; a full disk or a closed connection shows an ignored error only when it strikes at that write.",
  ["theta/encoder.go", "theta/decoder.go", "tuple/encoder.go", "tuple/decoder.go", "tuple/arrayofnumbers_sketch_encoder.go", "tuple/arrayofnumbers_sketch_decoder.go", "tuple/array_of_strings_summary.go", "tdigest/double_encoder.go", "tdigest/double_decoder.go", "count/count_min_sketch.go", "sampling", "kll/items_sketch.go", "frequencies/items_sketch.go"],
  [("error propagation of writers, readers and codecs", "encoders and decoders")], None, ["errors returned", "bytes written", "sketches decoded"])

p("C36", "A refused operation changes nothing",
  "An operation that is refused with an error, or ignored as documented (an empty string or slice, NaN or infinite values, zero, negative or undefined weights, a sketch of another seed, shape, array length or accuracy setting, an empty t-digest, a reservoir with more items than fit, a merge into itself, an invalid rank, split point or number of deviations, a result before any input), neither panics nor leaves a trace: every later answer, image and derived object, after any continuation and with the same random outcomes, is what it is without the refused operation, and so is the argument that was refused. Operations that have to be refused are refused, in every state of the object.",
  ["inputs", "histories"], "all sequences of a few operations, derivations and merges on small populations of every family, with every refused operation on every object before, between and after them",
  "Tests check that an error comes back, not that the state before it is intact: a union reduced to the precision of the sketch it then refused, or a count advanced before the check, shows only later.",
  ["theta", "tuple", "hll", "cpc", "kll", "req", "tdigest", "frequencies", "count", "filters", "sampling"],
  [("checks before changes in updates and merges", "Update and Merge functions of every family")], None, ["all queries", "errors returned"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
