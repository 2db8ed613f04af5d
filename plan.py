"""What is checked: the properties, the harnesses that decide them, and their bounds.

`python3 plan.py` writes properties.jsonl and MANIFEST.json from this file.
"""

ASSUMPTIONS = [
    "The encoding is the optimised LLVM IR (opt-level 1, no vectorisation) that rustc emits for /repo's current sources, monomorphised for the harness; rustc is trusted up to that IR.",
    "HashMap, HashSet and ahash are replaced, for the encoding only, by association lists with the same API; iteration order is a symbolic rotation/reversal of insertion order where a harness says so, the band hash is injective (or constant where a harness says 'collisions'). rayon's parallel iterators run sequentially (their order-free results are what the library relies on).",
    "Allocation never fails. Integer overflow is a panic (overflow checks on), debug assertions are off, as in a release build.",
]

# name -> bounds (what is symbolic), cost (rough seconds, for scheduling), flags of check.py
HARNESS = {}


def H(bounds, cost=3, **kw):
    def add(*names):
        for n in names:
            HARNESS[n] = dict(bounds=bounds, cost=cost, **kw)
    return add


# --- MinHash index -----------------------------------------------------------------------------
H("3 documents, 1 query, any 8-bit hashes; 2 bands of 1; thresholds 0, 1/2, 1 and off-grid")("q_exact_2x1")
H("2 documents, 1 query, any 8-bit hashes; 2 bands of 2; thresholds 0..1 in quarters and off-grid", 5)("q_exact_2x2")
H("2 documents, 1 query, any 8-bit hashes; 3 bands of 2; preallocated for 0, 50, 100 documents; thresholds 1/3, 1/2, 5/6", 90)("q_exact_3x2")
H("1 document, 1 query, any 8-bit hashes; 4 bands of 3; thresholds 1/4, 1/2, 2/3, 1", 21)("q_exact_4x3")
H("2 documents, 1 query, any 16-bit hashes; 2 bands of 1")("q_exact_u16")
H("2 documents, 1 query, any 32-bit hashes; 2 bands of 1")("q_exact_u32")
H("2 documents, 1 query, any hashes of the type in the name (64-bit ones: the first and last byte); 2 bands of 1; every query form, a removal, a replacement", 5)("q_u16", "q_u32", "q_u64", "q_i8", "q_i16", "q_i32", "q_i64")
H("3 documents, 1 query, any 8-bit hashes; 2 bands of 1; every band hash collides", 4, model_ok=True)("q_collide")
H("3 documents, 1 query, any 8-bit hashes; 2 bands of 1; 6 iteration orders", 8, model_ok=True)("v_ranked_2x1")
H("2 documents, 1 query, any 8-bit hashes; 2 bands of 2", 6, model_ok=True)("v_ranked_2x2")
H("2 documents, query by any of 3 ids; 2 bands of 1", 4)("v_by_id")
H("2 documents, batches of 0, 1, 2 queries, any 8-bit hashes; 2 bands of 1", 5)("v_bulk", "v_bulk_ranked")
H("3 documents, 1 query, any 8-bit hashes; 2 bands of 1; 6 iteration orders", 8, model_ok=True)("o_one_2x1")
H("2 documents, 1 query, any 8-bit hashes; 2 bands of 2; 4 iteration orders", 8, model_ok=True)("o_one_2x2")
H("3 documents, 1 query, k = 0..4, any 8-bit hashes; 2 bands of 1; 6 iteration orders", 8, model_ok=True)("o_top_2x1")
H("2 documents, 1 query, k = 0..2, any 8-bit hashes; 2 bands of 2; 4 iteration orders", 8, model_ok=True)("o_top_2x2")
H("3 documents, remove any of 4 ids twice, any query; 2 bands of 1", 6)("r_remove")
H("2 documents, remove one, every query form; 2 bands of 1", 6)("r_remove_forms")
H("3 documents, bulk removal of 0..2 of 4 ids in any order with repetitions, any query; 2 bands of 1", 25)("r_bulk")
H("2 documents, one inserted again, maybe removed; any hashes, any query; 2 bands of 1", 6)("i_reinsert", "i_reinsert_vec", "i_reinsert_smallvec")
H("re-insertion through both bulk operations, also twice in a batch; any hashes, any query", 8)("i_reinsert_bulk")
H("1 document, then a bulk insertion of 0..2 through either operation; any hashes, any query; 2 bands of 1", 6)("b_insert", "b_insert_vec", "b_insert_smallvec")
H("empty index, 0..3 inserts, ids 0..3; any hashes", 4)("k_books")
H("clear after 0..2 inserts, refill; any hashes, any query", 4)("k_clear")
H("shrink_to / capacity with 0..3 documents, any minimum; any hashes, any query", 6)("k_shrink")
H("the same history of insertions and a removal, any hashes, any query; 2 bands of 1", 6)("c_vec", "c_smallvec1", "c_smallvec2", "c_hashset")
H("every entry point that takes a signature, signature one too short / one too long", 4)("w_short", "w_long")
H("every entry point that takes a signature, right length", 4)("w_right")
H("any history of 3 operations (insert, remove, bulk insert, bulk remove, clear) on 2 ids, any hashes, then any query", 36)("h_history3")
H("any history of 4 operations on 2 ids, any hashes, then any query", 600)("h_history4")
H("30 operations of all kinds (insert, both bulk insertions, remove, bulk remove, shrink, clear) on 8 ids in 5 rhythms; 3 bands of 2; two hashes of one signature and three of the query free; 2 thresholds; every form of query at the end", 30, steps=90000000)("h_long", "h_long_vec", "h_long_smallvec")
H("the same, the free signature early in the history, queries in the middle, too", 150, steps=200000000)("h_long_twice")

# --- MinHash signatures --------------------------------------------------------------------------
H("3 tokens with any 32/64-bit token hash, 2 hash functions, any permutation and duplication", 4)("s_set8", "s_set16", "s_set32")
H("3 tokens with any 64-bit token hash, 2 hash functions, any permutation and duplication", 15)("s_set64")
H("2 tokens, 3 hash functions, any token hashes, repeated", 3)("s_dup8", "s_dup16", "s_dup32", "s_dup64")
H("two documents of 1..2 tokens with any token hashes, 2 hash functions", 3)("s_union8", "s_union16", "s_union32", "s_union64")
H("0..4 hash functions, documents of 0..1 tokens", 2)("s_shape8", "s_shape16", "s_shape32", "s_shape64")
H("two hashers built alike, documents of any 2 token hashes, single and bulk, 3 hash functions", 3)("s_det8", "s_det16", "s_det32", "s_det64")
H("the default FNV token hash, one-byte tokens", 3)("s_fnv32")

# --- measures, parameters, centroids ---------------------------------------------------------------
H("signatures of the length in the name, any 8-bit hashes", 2)("m_sim1", "m_sim3", "m_sim4", "m_sim8")
H("signatures of the length in the name, any agreement pattern, any finite threshold in [0, 1]", 3)("m_thr1", "m_thr2", "m_thr3", "m_thr5", "m_thr7")
H("signatures of 2, any 8-bit hashes, a grid of thresholds", 3)("m_thr_all")
H("signatures of different lengths", 2)("m_len")
H("sets of the sizes in the name, any elements", 3)("m_jac11", "m_jac20", "m_jac22", "m_jac32", "m_jac33")
H("any hasher: the signature is the document, 3 hashes", 2)("m_hasher")
H("documents of 2 tokens with any token hash, 3 hash functions", 3)("m_hasher8", "m_hasher16", "m_hasher32", "m_hasher64")
H("any probability in (0, 1), similarities and hash counts from a grid", 10)("p_proba")
H("any probability in (0, 1), hash counts 20..64 from a grid", 20)("p_proba_mid")
H("any probability in (0, 1), hash counts up to 200", 77)("p_proba_large")
H("similarities and hash counts from a grid", 3)("p_default")
H("3 documents, any hashes, lists of 1..3 of them with or without an unknown id anywhere, 6 iteration orders; the band shape in the name", 10)("d_centroid_1x2", "d_centroid_2x1", "d_centroid_2x2")
H("4 documents of 2 hashes, likewise", 27)("d_centroid_4")
H("5 documents of 1 hash, likewise", 10)("d_centroid_5")

# --- SimHash -----------------------------------------------------------------------------------------
H("any signature, and one differing from it by a background pattern and any 12 adjacent bits", 8)("g_metric64", "g_metric128")
H("any signature", 1)("g_high")
H("17 difference patterns", 1)("g_angle")
H("any one-byte token, SipHash with fixed keys", 1)("g_sig64_basic", "g_sig128_basic")
H("documents of 2 any one-byte tokens in any order", 3)("g_sig64_2", "g_sig128_2")
H("documents of 3 any one-byte tokens in any rotation/reversal", 8)("g_sig64_3", "g_sig128_3")
H("documents of 4 any one-byte tokens in any rotation/reversal", 30)("g_sig64_4", "g_sig128_4")
H("documents of 5 any one-byte tokens in any rotation/reversal", 60)("g_sig64_5", "g_sig128_5")
H("any signatures, as many as the name says", 2)("g_centroid64_1", "g_centroid64_2", "g_centroid64_3", "g_centroid64_4", "g_centroid64_5", "g_centroid128_3", "g_centroid128_4")
H("any query; documents differing in 1 bit anywhere", 12)("y_exact_3_1", "y_exact_2_0", "y_exact_two", "y_exact128_3_1")
H("any query; a document differing in 2 bits anywhere", 16)("y_exact_3_1b", "y_exact_4_2")
H("any query; a document differing in 3 or 4 bits, one per chosen 16-bit group, the last anywhere in its group", 16)("y_exact_4_2b", "y_exact_5_3", "y_exact_6_3", "y_exact_5_3b")
H("any query; a document differing in 2 or 3 bits, 128-bit signatures, 5 blocks", 320)("y_exact128_5_2", "y_exact128_5_2b", "y_deep128_5_2")
H("any query; a document differing in 3 or 4 bits, two or three of them anywhere in their 16-bit group", 150)("y_deep_4_2", "y_deep_5_3", "y_deep_6_3")
H("2 documents with 4 free bits each, 2 queries, 6 iteration orders; 4 blocks, distance 2", 64, model_ok=True)("y_forms64")
H("3 documents with 2 free bits each, 2 queries, 6 iteration orders; 3 blocks, distance 1", 23, model_ok=True)("y_forms64_3")
H("2 documents with 3 free bits each, 2 queries, 6 iteration orders; 4 blocks, distance 2", 23, model_ok=True)("y_forms128")
H("3 insertions through any of the operations, an id maybe again; 3 free bits each, any query of 3 free bits", 48)("y_inserts64", "y_inserts128")

H("any query; a document differing in as many bits as the distance, one per chosen 16-bit group, the last anywhere in its group; blocks_distance as named", 30)("y_blocks_10_1", "y_blocks_16_1", "y_blocks_8_2", "y_blocks_4_3", "y_blocks_2_1", "y_blocks_7_4", "y_blocks_6_5", "y_blocks_16_2", "y_blocks128_12_1", "y_blocks_8_5", "y_blocks_12_3", "y_blocks_63_1", "y_blocks_64_1", "y_blocks128_7_2")

H("4 pairs of keys with any one bit of them free, tokens of 1, 8, 9 bytes", 10, steps=90000000)("j_keys")
H("tokens of 12 lengths up to 1000 bytes, any one bit of the first, middle or last byte free, written in pieces of 1, 5, 64 or all", 10, steps=90000000)("j_sip", "j_sha1")
H("tokens of 1..64 bytes, the first and the last any, written in pieces of 1, 5, 64 or all", 10, steps=90000000)("j_sha1_bytes")

# --- text ----------------------------------------------------------------------------------------------
H("texts of 5 any ASCII characters", 5)("t_split_ascii")
H("texts of 4 any characters of 1 to 4 bytes", 4)("t_split_any")
H("texts of 0 and 1 any characters", 1)("t_split_empty")
H("3 runs of 1 or 151 letters between any characters, 100 spaces in between", 20)("t_split_long")
H("texts of 0..4 any characters of 1 to 3 bytes; sizes as far as 4", 2)("t_shingle", "t_range")
H("texts of 0..3 any characters of 1 to 4 bytes; sizes as far as 4", 2)("t_shingle4", "t_range4")
H("texts of 60..143 characters, any of them here and there; sizes 1..21, 40, all, more than all", 9)("t_shingle_long")
H("texts of 8 any ASCII characters, sizes 1..8", 1)("t_range_ascii")
H("slices of 0..6 any elements, sizes 1..7", 1)("t_range_slice")
H("texts of 300 / 1500 words, two of them with any character of 1 to 2 bytes", 5, steps=90000000)("t_split_many")
H("slices of 20 / 300 elements, some any, sizes 1..31", 3, steps=90000000)("t_range_slice_long")
H("12 / 70 tokens, two of them any 3 characters, sizes 1, 5, 9, 12", 3)("t_tokens_many")
H("0..4 tokens of 0..2 any characters of 1 to 2 bytes, sizes 1..3", 5)("t_tokens")

# --- clustering ----------------------------------------------------------------------------------------
H("any symmetric similarity relation on 3 points, any minimal size, two calls with any division of the points, 6 iteration orders", 2)("l_serial3")
H("any symmetric similarity relation on 4 points, any minimal size", 2)("l_serial4")
H("any symmetric similarity relation on 3 points, any minimal size, two calls with any division of the points, 6 iteration orders", 2)("l_alone3")
H("any symmetric similarity relation on 4 points, any minimal size, two calls with any division of the points", 3)("l_alone4")
H("cluster_par over a MinHash index of 3 documents with any hashes, 1..4 threads (not interleaved), minimal size 1..3", 2)("l_chunks")
H("cluster_par with 0 and 1 points, 1..3 threads", 1)("l_few")
H("any symmetric similarity relation on 3 points, 2 threads, every schedule with at most 3 preemptions at atomic operations and locks; minimal size as named", 13, model_only=True)("l_race3_1", "l_race3_2", "l_race3_3")
H("any symmetric similarity relation on 4 points, 2 threads, every schedule with at most 2 preemptions; minimal size 2", 22, model_only=True, preempt=2)("l_race4_2")
H("cluster_par over a MinHash index of 2 documents of any 1-bit hashes, 2 threads, every schedule with at most 3 preemptions", 5, model_only=True)("l_race_par2")
H("cluster_par over a MinHash index of 3 documents in any groups, 3 threads, every schedule with at most 2 preemptions; minimal size 2", 23, model_only=True, preempt=2)("l_race_par3")
H("cluster_par over a MinHash index of 4 documents in any groups, 2 threads, every schedule with at most 2 preemptions; minimal size 2", 6, model_only=True, preempt=2)("l_race_par4")
H("any symmetric similarity relation on 4 points, 2 threads, every schedule with at most 3 preemptions; minimal size 2", 140, model_only=True, entry="l_race4_2")("l_race4_2_deep")

H("any symmetric similarity relation on 3 points, 3 calls with one point, all, one twice, or none; minimal size 1..3", 10)("l_serial_calls", "l_alone_calls")
H("70 points in 5 relations (apart, groups, classes, a path, hubs), two pairs of them in any relation, 6 minimal sizes; the parallel clusterer in one call or two", 8, steps=90000000)("l_many_serial", "l_many_alone")
H("300 points in 5 relations, two pairs of them in any relation, 6 minimal sizes", 15, steps=90000000)("l_many300")
H("cluster_par with 70 points in groups of 1, 3, 20, 70, 5 minimal sizes, 7 numbers of threads from 1 to 100 (not interleaved)", 36, steps=90000000)("l_many_par")

# --- string index --------------------------------------------------------------------------------------
H("one document, then a file of any 3 characters of a, b, space, dot, line feed, carriage return, by any of 4 routes", 30)("n_load3")
H("two loads of 1..2 lines of 3 letters by any of 4 routes each", 24)("n_twice")
H("one document and one query of any ASCII character, any route", 10)("n_any")
H("empty files, missing files, an empty line; any route", 8)("n_empty")
H("documents of two tokens, 2 bands of 2, 4 thresholds, any route", 2)("n_partial")
H("a file that opens and cannot be read (a directory), a reader that fails after two lines", 1, steps=3000000)("n_broken")
H("3 files with a line that is not UTF-8, by the 3 loading routes, then any route", 2)("n_invalid")
H("12 documents and queries with characters of all kinds (byte order mark, other spaces, combining, supplementary, vertical tab, ...), any route", 5)("n_chars")
H("lines of 9000 and 5000 characters, both line ends, any route", 5, steps=90000000)("n_long")
H("a file of 110 lines by the 3 loading routes", 3)("n_many")

# --- realistic sizes -------------------------------------------------------------------------------------
H("200 documents in buckets of 1, 3, 5 and 200, one with any 8-bit hash in the large one; fresh or preallocated, shrunk in 4 ways", 30, steps=900000000)("a_shrunk")
H("131 (low threshold) or 301 documents (high) that share one band of 8 (first, middle, last) with the query and up to three others; among them, first, middle or last, a better one that does not share it, two of its hashes free; every query form, 5 values of k", 20, steps=900000000)("a_crowd", "a_crowd_high")
H("a document that agrees with the query nowhere but in one band (any; of the wide shapes first, middle or last), where its hashes are any, inserted by any route, next to another one sharing that band; then one of them removed, replaced, or all cleared; in a fresh or a preallocated index; and a threshold that one band does not reach; bands x width as named (8, 16, 32 and 64-bit hashes)", 20, steps=90000000)("a_band_42x3", "a_band_20x5", "a_band_7x8", "a_band_5x4", "a_band_1x1", "a_band_1x6", "a_band_40x1", "a_band_130x2")
H("a document with 1..7 of 7 positions equal, any threshold in [0, 1] (every double)", 1)("a_threshold", "a_threshold_forms", "a_threshold_one")
H("3 documents that agree with the query in numbers of 2000 positions that differ by one, in 3 orders, 4 iteration orders", 15, model_ok=True, steps=90000000)("a_fine_ranked", "a_fine_top")
H("33 documents in one bucket, and one with any other band, which is removed; one of 5 searched and then removed, replaced, or the only one left", 1)("a_bucket", "a_bucket_vec", "a_bucket_smallvec")
H("257 documents in one bucket, one of 5 searched and then removed, replaced, or the only one left", 4, steps=90000000)("a_bucket257", "a_bucket257_vec", "a_bucket257_smallvec")
H("a batch of 70 documents and queries, one of them at 4 places with any pattern of agreement", 3)("a_batch", "a_batch_pairs")
H("signatures of 126 / 300 positions, 4 base agreements, the last 3 positions any", 1)("a_similarity126", "a_similarity300")
H("signatures of 70000 positions, 4 base agreements, the last 3 positions any", 30, steps=90000000)("a_similarity70000")
H("documents of 2..17 tokens, 1..33 hash functions, rotations with repetitions", 2)("a_doc8", "a_doc16", "a_doc32", "a_doc64")
H("documents of 65..4097 (32 and 64 bits: 20001, 32 bits: 70000) tokens, all of any one hash but one of any other at 5 places", 5, steps=90000000)("a_long8", "a_long16", "a_long32", "a_long64")
H("1..300 hash functions, 5 seeds and the default one", 3)("a_alike8", "a_alike16", "a_alike32", "a_alike64", "a_alike_fnv", "a_alike_fnv64")
H("any two of 300 hash functions on 12 tokens", 1)("a_distinct8", "a_distinct16", "a_distinct32", "a_distinct64")
H("two tokens repeated 127..257 times", 5)("a_repeats128", "a_repeats256")
H("two tokens, one repeated 2050 times, the other one time less", 6, steps=90000000)("a_repeats2050")
H("a token repeated 33000 times, another 3 times", 40, steps=90000000)("a_repeats33000")
H("a token repeated 33000 times, another one time less", 80, steps=200000000)("a_repeats33000_even")
H("127..128 and 255..256 signatures, the free bits in one less than half, half, or one more of them", 6)("a_centroid127", "a_centroid255")
H("300 documents, any two values in half, half and one more, or most of them", 2)("a_bands_centroid")
H("40 signatures, the query at distance 0..4 from one of 4 of them, one bit any of four; single and bulk insertion", 2)("a_simhash64", "a_simhash128")
H("193 / 385 signatures at distances 0..3 around the query in all blocks, 3 queries; single and bulk insertion", 8, steps=90000000)("a_simhash_spread64", "a_simhash_spread128")
H("1100 documents of one signature, a near or a far query; single and bulk insertion", 8, steps=90000000)("a_simhash_same")
H("one signature, the query differing in 7 numbers of bits up to 3 more than the distance, one bit any of two, in as many blocks or in few; 12 / 22 / 20 blocks, distance 10 / 20 / 18", 8, steps=90000000)("a_simhash_wide64", "a_simhash_wide64b", "a_simhash_wide128")
H("300 documents that share one of 20 bands each with the query, one of 3 of them sharing it or not (all concrete but for these choices)", 5, steps=90000000)("a_spread")
H("150 signatures that differ in 8 bits, 20 queries; single and bulk insertion", 3, steps=90000000)("a_simhash_near")

# --- Python bindings -----------------------------------------------------------------------------------
Y = dict(crate="pyharness")
H("every class of the width in the name, every insertion and query method (documents or tokens asked for either way), documents of 0..2 words, removal; any combination", 60, **Y)("e_forms64", "e_forms32", "e_forms16", "e_forms8")
H("documents of 3 words out of 3 and queries of 2, every n-gram range within 1..3, with and without lower case", 22, **Y)("e_words")
H("documents of 4 words out of 2, every n-gram range within 1..3, with and without lower case", 5, **Y)("e_words3")
H("documents of 3 characters out of 4 (1 and 2 bytes) and queries of 2, every n-gram range, with and without lower case", 48, **Y)("e_chars")
H("documents of 4 characters out of 2, every n-gram range, with and without lower case", 7, **Y)("e_chars4")
H("any one-character ASCII document and query", 1, **Y)("e_any")
H("any 64-bit ids, one-letter documents out of 3, removal of any", 3, **Y)("e_any64", "e_any16", "e_any8")
H("any 64-bit ids, any one-character ASCII documents and query, removal of any", 8, **Y)("e_any32")
H("all 12 classes, 1..3 bands of 1..3; calculated bands; neither", 2, **Y)("e_new")
H("all 12 classes with their defaults", 4, **Y)("e_default")
H("batches of 99, 100, 101, 301 documents by every bulk route, one of them searched, with and without lower case", 20, steps=90000000, **Y)("e_many", "e_many_vec")
H("both classes, every insertion and query method (documents or tokens asked for either way), documents of 0..7 words; any combination", 8, **Y)("f_forms64", "f_forms128")
H("documents of 2 words out of 3 and queries of 2, every n-gram range within 1..3, with and without lower case, both widths", 24, **Y)("f_words")
H("documents of 4 words out of 2, every n-gram range, with and without lower case", 7, **Y)("f_words3")
H("documents of 3..4 characters (1 and 2 bytes), every n-gram range, with and without lower case", 13, **Y)("f_chars", "f_chars3")
H("any 64-bit ids, one-letter documents out of 3", 2, **Y)("f_any64", "f_any64_tokens", "f_any128")
H("documents of 80 words / characters, the last any of two, every n-gram range", 10, steps=90000000, **Y)("e_long_words", "e_long_chars", "f_long_words", "f_long_chars")
H("documents and queries of two tokens out of 4, an empty one and one with spaces among them, every token insertion and query method", 8, **Y)("e_tokens", "f_tokens")
H("every class with the char analyzer and no range, 5 documents", 2, **Y)("e_default_char", "f_default_char")
H("every class, 6 thresholds and 4 numbers of hashes, 5 queries", 20, steps=90000000, **Y)("e_calculated")
H("12 documents of 24..36 words at many distances, 6 queries, both widths, 4..19 blocks, distance 3..18", 8, steps=90000000, **Y)("f_wide")
H("both classes with their defaults", 1, **Y)("f_default")
H("batches of 99, 100, 101, 301 documents by both bulk routes, one of them searched, with and without lower case", 20, steps=90000000, **Y)("f_many")

INDEX = "gaoya/src/minhash/minhash_index.rs"
HASHER = "gaoya/src/minhash/min_hasher.rs"
PROPS = {}


def P(pid, title, statement, over, qtext, why, files, symbols, quick, thorough=(), assumptions=()):
    assert len(title) <= 80, title
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, symbols=symbols,
                      quick=list(quick), thorough=list(thorough), assumptions=list(assumptions))


P("C01", "A MinHash index query returns exactly the similar candidates",
  "A query on a MinHash index returns exactly those inserted documents that share at least one whole band of their signature with the query and whose estimated similarity (the fraction of equal positions) is at least the configured threshold. No such document is missing and no other id is ever returned, also when band hashes collide.",
  ["inputs", "configurations"], "all signatures, queries, thresholds and band shapes",
  "The tests insert a few fixed texts and look for an id that must be there; no test fixes the boundary of the answer, and none reaches a particular pattern of equal positions or a band collision.",
  [INDEX], ["MinHashIndex::insert", "MinHashIndex::query", "MinHashIndex::query_owned"],
  ["a_crowd", "a_crowd_high", "q_exact_2x1", "q_exact_2x2", "q_exact_4x3", "q_exact_u16", "q_exact_u32", "q_u16", "q_u32", "q_u64", "q_i8", "q_i16", "q_i32", "q_i64", "q_collide", "a_threshold", "a_bucket257", "a_spread", "a_band_42x3", "a_band_20x5", "a_band_7x8", "a_band_5x4", "a_band_1x1", "a_band_1x6", "a_band_40x1", "a_band_130x2"], ["q_exact_3x2"])
P("C02", "All forms of a MinHash query give the same answer, ranked ones best first",
  "The borrowing, owned, by-id, with-similarity and bulk forms of a query return the same documents. Forms with similarities report each document once with its true estimated similarity, best first; a bulk query returns one answer per query, in the order of the queries.",
  ["inputs", "histories"], "all signatures, queries, iteration orders of the hash containers and batch sizes",
  "Tests check one form on one text each; agreement of the forms and ordering under ties and iteration orders is a statement about all inputs.",
  [INDEX], ["MinHashIndex::query_owned_return_similarity", "MinHashIndex::par_bulk_query", "MinHashIndex::query_by_id"],
  ["a_crowd", "a_crowd_high", "v_ranked_2x1", "v_ranked_2x2", "v_by_id", "v_bulk", "v_bulk_ranked", "r_remove_forms", "a_threshold_forms", "a_fine_ranked", "a_bucket", "a_bucket257", "a_spread", "a_batch", "a_band_5x4"])
P("C03", "query_one and query_top_k return the best documents",
  "Asking for one match returns a document of highest similarity among those the query answers, and nothing only if there is no answer. Asking for the k best returns, best first and without repetition, the k documents of highest similarity among those sharing a band with the query (all of them if there are fewer).",
  ["inputs"], "all signatures, queries, k and iteration orders",
  "The result depends on ties, iteration order and heap contents, which tests on fixed texts do not vary.",
  [INDEX], ["MinHashIndex::query_one", "MinHashIndex::query_top_k"],
  ["a_crowd", "a_crowd_high", "o_one_2x1", "o_one_2x2", "o_top_2x1", "o_top_2x2", "a_threshold_one", "a_fine_top", "a_bucket", "a_bucket257", "a_spread", "a_band_5x4"])
P("C04", "Removing documents removes exactly them",
  "After removing ids, singly or in bulk, no query returns them, every other document is answered as before, and the removed signatures are returned in the order of the ids. Removing an unknown or already removed id changes nothing.",
  ["inputs", "histories"], "all contents, all ids and orders of removal",
  "Removal is tested on one fixed history; that no other document is affected quantifies over all contents sharing bands with the removed one.",
  [INDEX, "gaoya/src/minhash/id_container.rs"], ["MinHashIndex::remove", "MinHashIndex::bulk_remove"],
  ["r_remove", "r_remove_forms", "r_bulk", "h_history3", "a_spread", "a_bucket", "a_bucket_vec", "a_bucket_smallvec", "a_bucket257", "a_bucket257_vec", "a_bucket257_smallvec", "a_band_1x1", "a_band_1x6", "a_band_5x4", "a_band_40x1", "h_long"], ["h_history4", "a_band_42x3", "a_band_7x8", "h_long_twice", "h_long_vec", "h_long_smallvec"])
P("C05", "Inserting an id again replaces its document",
  "After an id is inserted again, through any of the insert operations and even within one batch, the index answers for that id according to its last signature only. Removing it afterwards leaves no trace of either signature.",
  ["inputs", "histories"], "all signatures and histories of re-insertion and removal",
  "No test inserts an id twice.",
  [INDEX], ["MinHashIndex::insert", "MinHashIndex::par_bulk_insert", "MinHashIndex::par_bulk_insert_pairs"],
  ["i_reinsert", "i_reinsert_vec", "i_reinsert_smallvec", "i_reinsert_bulk", "h_history3", "a_bucket", "a_bucket257", "a_band_1x6", "a_band_5x4", "a_band_40x1", "h_long"], ["h_history4", "a_band_7x8", "h_long_twice"])
P("C06", "Bulk insertion equals inserting one by one",
  "Inserting a batch, as two lists or as pairs, leaves the index answering every query as if the documents had been inserted one by one, whatever was in the index before. An empty batch changes nothing.",
  ["inputs", "configurations"], "all batches, earlier contents, queries and id containers",
  "Bulk insertion is tested for one corpus by counting answers.",
  [INDEX], ["MinHashIndex::par_bulk_insert", "MinHashIndex::par_bulk_insert_pairs"],
  ["b_insert", "b_insert_vec", "b_insert_smallvec", "i_reinsert_bulk", "a_batch", "a_batch_pairs", "a_band_1x1", "a_band_1x6", "a_band_40x1", "a_band_130x2", "a_band_42x3", "h_long"], ["h_long_vec"])
P("C07", "Bookkeeping and capacity operations never change the answers",
  "Size, containment and id listings always agree with the history of the index, clearing empties it so that it can be refilled, and preallocating or shrinking changes no answer. None of these operations panics, on an empty index either.",
  ["inputs", "histories"], "all contents and arguments",
  "Capacity operations are reached by one test; that they never change an answer or panic quantifies over contents and arguments.",
  [INDEX], ["MinHashIndex::size", "MinHashIndex::clear", "MinHashIndex::shrink_to_fit", "MinHashIndex::shrink_to"],
  ["k_books", "k_clear", "k_shrink", "r_remove", "a_shrunk", "a_band_130x2", "a_band_42x3", "a_band_1x1", "a_band_1x6", "a_band_40x1", "a_band_5x4", "h_long"], ["h_long_twice"])
P("C08", "The id container does not influence the answers",
  "A MinHash index answers alike with every id container (hash set, vector, small vector spilling to the heap), after any insertions and removals.",
  ["inputs", "histories", "configurations"], "all signatures, queries and containers",
  "Containers differ in storage and removal only when ids share bands in particular numbers; tests use one.",
  ["gaoya/src/minhash/id_container.rs", INDEX], ["HashSetContainer", "VecContainer", "SmallVecContainer"],
  ["c_vec", "c_smallvec1", "c_smallvec2", "c_hashset", "i_reinsert_vec", "i_reinsert_smallvec", "b_insert_vec", "b_insert_smallvec", "a_bucket_vec", "a_bucket_smallvec", "a_bucket257", "a_bucket257_vec", "a_bucket257_smallvec", "h_long_vec", "h_long_smallvec"], ["h_long_twice"])
P("C09", "A signature of the wrong length is refused before it can do harm",
  "Every insert, bulk insert and query operation of the MinHash index panics when given a signature whose length is not bands times band width; it never answers from, or stores, a part of it.",
  ["inputs"], "all operations and all signatures of other lengths",
  "Tests only use signatures of the right length.",
  [INDEX], ["MinHashIndex::insert", "MinHashIndex::query"],
  ["w_short", "w_long", "w_right"])
P("C10", "A MinHash signature depends only on the set of tokens",
  "The signature of a document is the same for every order of its tokens and however often a token is repeated, for every hasher width.",
  ["inputs"], "all token hashes, orders and repetitions",
  "The tests compare similar texts statistically.",
  [HASHER, "gaoya/src/minhash/min_hasher64.rs"], ["MinHasher8", "MinHasher16", "MinHasher32", "MinHasher64V1"],
  ["s_set8", "s_set16", "s_set32", "s_set64", "s_dup8", "s_dup16", "s_dup32", "s_dup64", "a_doc8", "a_doc16", "a_doc32", "a_doc64", "a_long8", "a_long16", "a_long32", "a_long64"])
P("C11", "A MinHash signature is a minimum over the tokens",
  "Each position of the signature of a union of two documents is the smaller (for the narrow hashers: one) of the two documents' values at that position, so equal positions estimate the overlap; no two positions are the same function. A signature has exactly the configured number of positions, also for an empty document.",
  ["inputs", "configurations"], "all token hashes, numbers of hash functions and hasher widths",
  "Only estimates on fixed texts are tested.",
  [HASHER, "gaoya/src/minhash/min_hasher64.rs"], ["MinHasher::create_signature"],
  ["s_union8", "s_union16", "s_union32", "s_union64", "s_shape8", "s_shape16", "s_shape32", "s_shape64", "a_doc8", "a_doc16", "a_doc32", "a_doc64", "a_distinct8", "a_distinct16", "a_distinct32", "a_distinct64"])
P("C12", "Signatures are reproducible",
  "Two hashers configured alike give the same signature for the same document, in separate runs and through the single and the bulk operations; the bulk operation returns one signature per document in order.",
  ["inputs"], "all documents, hasher widths and batches",
  "Tests never compare two hashers or a batch with single calls.",
  [HASHER, "gaoya/src/minhash/min_hasher64.rs"], ["MinHasher::create_signature", "MinHasher::bulk_create_signature"],
  ["s_det8", "s_det16", "s_det32", "s_det64", "s_fnv32", "a_doc32", "a_doc64", "a_alike8", "a_alike16", "a_alike32", "a_alike64", "a_alike_fnv", "a_alike_fnv64"])
P("C13", "Similarity measures compute what they say",
  "The similarity of two signatures is the fraction of equal positions, the distance is one minus it, and the threshold test says exactly whether the similarity reaches the threshold. The Jaccard similarity of two sets is the size of their intersection over the size of their union; signatures of different lengths are refused.",
  ["inputs"], "all signatures, sets and thresholds",
  "The threshold test rounds; tests check a handful of values.",
  ["gaoya/src/minhash/mod.rs"], ["compute_minhash_similarity", "similarity_greater_than_threshold", "compute_jaccard_similarity"],
  ["m_sim1", "m_sim3", "m_sim4", "m_sim8", "m_thr1", "m_thr2", "m_thr3", "m_thr5", "m_thr7", "m_thr_all", "m_len", "m_jac11", "m_jac20", "m_jac22", "m_jac32", "m_jac33", "m_hasher", "m_hasher8", "m_hasher16", "m_hasher32", "m_hasher64", "a_similarity126", "a_similarity300", "a_similarity70000"])
P("C14", "Calculated band parameters fit the number of hashes and reach the probability",
  "For a desired similarity, number of hashes and probability, the calculated bands times band width never exceed the number of hashes, and documents of that similarity share a band with at least the desired probability whenever some banding can reach it; of the bandings that do, the one with the widest bands is chosen. The short form asks for probability 0.99.",
  ["inputs"], "all probabilities; similarities and hash counts",
  "Tests check three parameter sets.",
  ["gaoya/src/minhash/mod.rs"], ["calculate_minhash_params", "calculate_minhash_params_with_proba"],
  ["p_proba", "p_proba_mid", "p_default"], ["p_proba_large"])
P("C15", "The MinHash centroid takes a most frequent value of every band",
  "The centroid of a list of documents is a signature each of whose bands is, as a whole, the band of one of the listed documents that are in the index, and no other band value is more frequent among them; ids that are not in the index do not count.",
  ["inputs"], "all signatures and id lists, also with unknown ids",
  "One example is tested.",
  [INDEX, "gaoya/src/minhash/mod.rs"], ["MinHashIndex::calculate_centroid", "minhash_band_centroid_from_refs"],
  ["d_centroid_1x2", "d_centroid_2x1", "d_centroid_2x2", "d_centroid_4", "d_centroid_5", "a_bands_centroid"])
P("C16", "A SimHash signature is the bitwise majority of its tokens",
  "Each bit of a document's SimHash is set exactly when more than half of its tokens, counted with repetition, set it in their own one-token signature; order does not matter and the empty document has signature zero. Equal hashers give equal signatures, for both widths.",
  ["inputs"], "all documents",
  "Tests compare distances of two fixed texts.",
  ["gaoya/src/simhash/sim_hash.rs", "gaoya/src/simhash/sim_hasher.rs"], ["SimHash::create_signature"],
  ["g_sig64_basic", "g_sig128_basic", "g_sig64_2", "g_sig128_2", "g_sig64_3", "g_sig128_3", "g_sig64_4", "g_sig128_4", "a_repeats128", "a_repeats256", "a_repeats2050", "a_repeats33000"], ["g_sig64_5", "g_sig128_5", "a_repeats33000_even"],
  ["SipHash additions deep in the mixing are first replaced by unconstrained values (an over-approximation); what that does not prove is decided on the exact term."])
P("C17", "SimHash distance counts differing bits, the centroid is a majority",
  "The Hamming distance of two SimHash signatures is the number of bits in which they differ, and the angle is that distance scaled by pi over the width. Each bit of a centroid is set exactly when more than half of the signatures set it.",
  ["inputs"], "all signatures of both widths",
  "Tests use a few values.",
  ["gaoya/src/simhash/mod.rs", "gaoya/src/simhash/sim_hash.rs"], ["SimHashBits", "SimHash::create_centroid"],
  ["g_metric64", "g_metric128", "g_high", "g_angle", "g_centroid64_1", "g_centroid64_2", "g_centroid64_3", "g_centroid64_4", "g_centroid64_5", "g_centroid128_3", "g_centroid128_4", "a_centroid127", "a_centroid255"])
P("C18", "A SimHash index query returns exactly the signatures within the distance",
  "A query on a SimHash index returns exactly the ids whose signature differs from the query in at most the configured number of bits, wherever the differing bits lie; no candidate table misses one.",
  ["inputs", "configurations"], "all signatures, queries, block counts and distances",
  "Whether the block tables cover every choice of differing bits is a statement about all positions; tests flip a few.",
  ["gaoya/src/simhash/sim_hash_index.rs", "gaoya/src/simhash/permutation.rs"], ["SimHashIndex::query", "Permutation::create"],
  ["y_exact_3_1", "y_exact_3_1b", "y_exact_4_2", "y_exact_4_2b", "y_exact_5_3", "y_exact_5_3b", "y_exact_6_3", "y_exact_2_0", "y_exact_two", "y_exact128_3_1", "y_blocks_10_1", "y_blocks_16_1", "y_blocks_8_2", "y_blocks_4_3", "y_blocks_2_1", "y_blocks_7_4", "y_blocks_6_5", "y_blocks_16_2", "y_blocks128_12_1", "a_simhash_near", "a_simhash_spread64", "a_simhash_spread128", "a_simhash_same", "a_simhash_wide64"],
  ["y_blocks_8_5", "y_blocks_12_3", "y_blocks_63_1", "y_blocks_64_1", "y_blocks128_7_2", "y_exact128_5_2", "y_exact128_5_2b", "y_deep_4_2", "y_deep_5_3", "y_deep_6_3", "y_deep128_5_2"])
P("C19", "All SimHash index operations agree",
  "The borrowing, owned, ranked, single-best and bulk forms of a SimHash query return the same documents, ranked ones with their true distances in ascending order, the single best a nearest one. Inserting singly, in bulk or an id again leaves the index answering by the last signature of each id, and its size is the number of distinct ids.",
  ["inputs", "histories"], "all signatures, queries, insertion histories and iteration orders",
  "Tests check one form on one corpus.",
  ["gaoya/src/simhash/sim_hash_index.rs"], ["SimHashIndex::query_return_distance", "SimHashIndex::query_one", "SimHashIndex::par_bulk_insert"],
  ["y_forms64", "y_forms64_3", "y_forms128", "y_inserts64", "y_inserts128", "a_simhash64", "a_simhash128", "a_simhash_near", "a_simhash_spread64", "a_simhash_same", "a_simhash_wide64", "a_simhash_wide64b", "a_simhash_wide128"])
P("C20", "Splitting a text yields its words and nothing else",
  "Splitting a text yields exactly the maximal runs of characters that contain no ASCII whitespace and no ASCII punctuation, in order and never empty, for every Unicode text. The boxed and the plain form agree.",
  ["inputs"], "all texts, with characters of every encoded length",
  "The tests split no text but indirectly; separators next to each other, at the ends and next to multi-byte characters are the cases that matter.",
  ["gaoya/src/text/tokenizers.rs"], ["whitespace_split", "whitespace_split_boxed"],
  ["t_split_ascii", "t_split_any", "t_split_empty", "t_split_long", "t_split_many"])
P("C21", "Shingles are all windows of whole characters or tokens, in order",
  "Shingling a text yields, for every position in order, the windows of the given size (for a range: of each size from the smallest to the largest that still fits) of whole characters, never cut inside a character; the last positions are not forgotten and a text that is too short yields nothing. Token shingles are the concatenations of adjacent tokens, windows over slices likewise.",
  ["inputs", "configurations"], "all texts, tokens and sizes",
  "The tests check two ASCII strings.",
  ["gaoya/src/text/tokenizers.rs", "gaoya/src/text/multi_shingles.rs"], ["shingle_text", "shingle_text_range", "shingle_text_boxed", "shingle_tokens", "MultiShingles"],
  ["t_shingle", "t_shingle4", "t_shingle_long", "t_range", "t_range4", "t_range_ascii", "t_range_slice", "t_range_slice_long", "t_tokens", "t_tokens_many"])
P("C22", "Serial clustering partitions the similar points",
  "The serial clusterer yields clusters of at least the minimal number of points, all similar to one point, disjoint, with distinct ids also across calls, and every point's own assignment names the cluster that lists it. A cluster takes in every point similar to that one point which no cluster had before. A point is left out only if fewer than the minimal number of points similar to it are still unassigned.",
  ["inputs", "histories"], "all similarity relations, minimal sizes, iteration orders and sequences of calls",
  "One corpus is clustered in the tests, in one call.",
  ["gaoya/src/clustering/clustering_serial.rs"], ["Clusterer::cluster"],
  ["l_serial3", "l_serial4", "l_serial_calls", "l_many_serial", "l_many300"])
P("C23", "Parallel clustering never shares a point, whatever the schedule",
  "However the threads of the parallel clusterer interleave, every point is in at most one cluster and its own assignment points to the cluster that lists it, clusters have at least the minimal number of points, all similar to one point, and distinct ids. A cluster takes in every point similar to that one point which no cluster had before. A point is left out only if fewer than the minimal number of points similar to it are still unassigned; any number of threads and points is accepted.",
  ["schedules", "inputs", "configurations"], "all schedules, similarity relations, minimal sizes and numbers of threads",
  "A test sees a few schedules, in which the threads hardly meet.",
  ["gaoya/src/clustering/clusterer_parallel.rs"], ["Clusterer::cluster", "Clusterer::cluster_par", "Clusterer::try_create_cluster"],
  ["l_alone3", "l_alone4", "l_alone_calls", "l_chunks", "l_few", "l_race3_1", "l_race3_2", "l_race3_3", "l_race4_2", "l_race_par2", "l_race_par3", "l_race_par4", "l_many_alone", "l_many_par"], ["l_race4_2_deep"],
  ["Threads interleave at every atomic operation and lock operation, sequentially consistently; the code between two of them is one step (rustc's Send/Sync rules leave no other shared mutable state in safe code)."])
P("C24", "The string index stores every line and answers with the stored texts",
  "Every inserted text and every line of a loaded file becomes a document, by every route (one by one, from a reader, from a file, from a file in parallel) and in any sequence of them; loading reports how many were added, lines that are not UTF-8 are skipped, and a file that is missing or cannot be read is an error that adds nothing. A query returns exactly the stored texts, as often as stored, whose MinHash signature answers the query.",
  ["inputs", "histories"], "all texts, line ends, routes and sequences of them",
  "One test loads six lines through one route.",
  ["gaoya/src/minhash/string_index.rs"], ["MinHashStringIndex::insert", "MinHashStringIndex::query", "MinHashStringIndex::load_from_lines", "MinHashStringIndex::load_from_file", "MinHashStringIndex::load_from_file_parallel"],
  ["n_load3", "n_twice", "n_any", "n_empty", "n_partial", "n_many", "n_chars", "n_long", "n_invalid", "n_broken"], [],
  ["A file is its bytes: std::fs::File is replaced by a reader over bytes the harness supplies (the real file system in native replays)."])

PYO3 = "pyo3 is modelled: its attribute macros make the classes and methods of py-gaoya/src callable by their Python names with Python-like values (int, float, str, list, tuple, None); CPython itself is outside."
P("C25", "Every MinHash class of the Python module analyses and answers alike",
  "Every MinHash class of the Python extension, whatever its hash width and id container, stores and finds documents by exactly the n-grams (words or characters, in the configured range, in lower case if so configured) of the document, the same for every way of inserting (single, bulk, parallel, documents or tokens) and every way of querying (single, bulk, with similarities). Sizes, removals, defaults and calculated band parameters are those of the index behind it.",
  ["inputs", "configurations"], "all classes, methods, analyzers, n-gram ranges, ids and documents",
  "The Python tests use one class, one analyzer and one insertion method at a time; twelve classes and twenty methods are generated by macros with three analyzers each.",
  ["py-gaoya/src/min_hash.rs", "py-gaoya/src/lib.rs"], ["py_minhash_index", "TokenizerSpecification"],
  ["e_forms64", "e_forms32", "e_forms16", "e_forms8", "e_words", "e_words3", "e_chars", "e_chars4", "e_any", "e_any64", "e_any32", "e_any16", "e_any8", "e_new", "e_default", "e_many", "e_many_vec", "e_long_words", "e_long_chars", "e_tokens", "e_default_char", "e_calculated"], [], [PYO3])
P("C26", "Every SimHash class of the Python module analyses and answers alike",
  "Both SimHash classes of the Python extension store and find documents by exactly the n-grams, with repetition, of the document (words or characters, in the configured range, in lower case if so configured), the same for every way of inserting (single or parallel, documents or tokens) and every way of querying (single, bulk, with distances), within the configured distance.",
  ["inputs", "configurations"], "both classes, all methods, analyzers, n-gram ranges, ids and documents",
  "The Python tests do not test the SimHash classes at all.",
  ["py-gaoya/src/sim_hash.rs", "py-gaoya/src/lib.rs"], ["py_simhash_index", "TokenizerSpecification"],
  ["f_forms64", "f_forms128", "f_words", "f_words3", "f_chars", "f_chars3", "f_any64", "f_any64_tokens", "f_any128", "f_default", "f_many", "f_long_words", "f_long_chars", "f_tokens", "f_default_char", "f_wide"], [], [PYO3])

P("C28", "Token hashers are the standard functions of the whole token",
  "The hash of a token is the standard function of everything the token writes, in however many pieces: SipHash-2-4 with both given keys for SimHash signatures of 64 and 128 bits, SipHash-2-4 with zero keys for the MinHash builder, the first eight bytes of SHA-1 for the SHA-1 hasher. So signatures can be stored and compared across processes and machines, and every byte counts.",
  ["inputs", "configurations"], "all keys, tokens and ways of writing them",
  "No test compares a token's hash with anything.",
  ["gaoya/src/simhash/sim_hasher.rs", "gaoya/src/minhash/hashers.rs"], ["SimSipHasher64::hash", "SimSipHasher128::hash", "Sha1Hasher::write", "Sha1Hasher::finish"],
  ["j_keys", "j_sip", "j_sha1", "j_sha1_bytes"])

# The Python facade has a check of its own, check_facade.py.
FACADE = dict(
    harnesses=["z_size", "z_threshold", "z_container", "z_params", "z_hashes", "z_default", "z_single", "z_bulk", "z_many", "z_remove", "x_new", "x_analyzer", "x_params", "x_default", "x_single", "x_many"],
    harness_bounds={
        "z_size": "any integer hash size",
        "z_threshold": "any threshold but NaN, any supported hash size and container",
        "z_container": "any container name of at most 9 characters, any supported hash size",
        "z_params": "any numbers of bands, widths and hashes, any n-gram range, lower case or not, word or char analyzer, all hash sizes and containers, arguments by position and by name",
        "z_hashes": "any number of hashes, no number of bands, no band width or neither",
        "z_default": "the defaults, with any one argument given",
        "z_single": "any two ids and documents, any query; inserted singly; every analyzer, also callables and callable objects",
        "z_bulk": "a bulk insertion of any two ids and documents, any query; word analyzer or callable",
        "z_many": "bulk insertions of 0, 1, 55 documents, bulk queries of several documents, some of them twice; every analyzer",
        "x_many": "insertions of 0, 1, 40 documents, bulk queries of several documents, some of them twice; every analyzer",
        "z_remove": "three documents under any ids, any id removed, any of the documents searched; single and bulk insertion",
        "x_new": "any integers as hash size, number of blocks and distance; 3..32 blocks and a distance below them are accepted",
        "x_analyzer": "any analyzer name of at most 5 characters",
        "x_params": "any n-gram range, lower case or not, word or char analyzer, both hash sizes, 3..8 blocks, any smaller distance, arguments by position and by name",
        "x_default": "the defaults, with any one argument given",
        "x_single": "any two ids and documents, any query; every analyzer, also callables and callable objects",
    },
    assumptions=["CrossHair's model of Python's ints, floats and strings; error messages are not looked at.",
                 "The extension is replaced, for the symbolic runs, by facade/native.py: equal documents have similarity 1, documents beginning alike 2/3, others 0; answers carry the class and effective configuration. The real extension takes its place in replays.",
                 "The threshold is not NaN, numbers given to the native classes are in their range."])
P("C27", "The Python facade is the configured native index",
  "A MinHashStringIndex or SimHashStringIndex of the Python package behaves as the native index of the requested hash size and container with the requested parameters: every insertion, removal and query, single or bulk, with or without similarities, gives what the native index gives for the document, or for the tokens of a callable analyzer, in the order of the queries. Unsupported hash sizes, thresholds, containers, block numbers, distances and analyzers are refused with a ValueError.",
  ["inputs", "configurations"], "all parameters, documents, ids, analyzers and operations",
  "The Python tests do not touch the SimHash facade, the bulk queries, or parameters one by one.",
  ["py-gaoya/gaoya/minhash.py", "py-gaoya/gaoya/simhash.py"], ["MinHashStringIndex", "SimHashStringIndex"], [])
PROPS["C27"].update(technique="symbolic execution of the Python code with CrossHair/Z3", command="python3 check_facade.py", note="CrossHair explores every path of the real facade code with symbolic arguments and Z3 ('confirmed over all paths'), on a model of the extension; counterexamples and witnesses are replayed on the real extension. Bounded: two or three documents of at most 2 characters, parameter ranges as listed per harness.")
FACADE["title"] = PROPS["C27"]["title"]

NOT_APPLICABLE = []
LEVEL_NOTE = "Own KLEE-style symbolic executor over rustc's LLVM IR of the real code with Z3: every feasible path within the stated bounds, each assertion decided for all inputs of the path; counterexamples replayed natively on the real crate. Bounded: sizes and domains as listed per harness in the evidence; hash containers and rayon are modelled."


def write():
    import json, os
    root = os.path.dirname(os.path.abspath(__file__))
    with open(root + "/properties.jsonl", "w") as o:
        for pid, p in PROPS.items():
            o.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": x, "where": p["files"][0]} for x in p["symbols"]]}}) + "\n")
        for n in NOT_APPLICABLE:
            o.write(json.dumps(n["prop"]) + "\n")
    with open(root + "/MANIFEST.json", "w") as o:
        json.dump({
            "version": 1,
            "setup_cmd": "true",
            "checks": [{"property": pid, "quick_cmd": p.get("command", "python3 check.py " + pid), "thorough_cmd": p.get("command", "python3 check.py " + pid) + " --tier thorough", "technique": p.get("technique", "symbolic execution of rustc's LLVM IR with Z3"), "level": "model_checking", "level_note": p.get("note", LEVEL_NOTE)} for pid, p in PROPS.items()],
            "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
        }, o, indent=1)
        o.write("\n")


if __name__ == "__main__":
    write()
