"""The property list: python so that it is easy to edit; tools/mkmanifest.py reads it."""
P = []
def p(id, title, statement, over, qtext, why, files, mech, note=None, na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if note: d['note'] = note
    if na: d['na'] = na
    P.append(d)

p('P01', 'Numbers and strings read back from an index file are the ones written',
  'Every fixed-width integer, every variable-length integer and offset over its whole range, and every string written to an index output stream is read back with the same value from the position where it was written, whatever the position of the value relative to the stream buffer. Reading or skipping a value consumes exactly the bytes that writing it produced, so the values that follow stay aligned. A value cut off by the end of the file raises an end-of-file error instead of returning data.',
  ['inputs'], 'for every value, every buffer state and every file offset',
  'Round-trip tests sample a few values at one buffer alignment; the guarantee covers 2^64 values times every alignment of the value against the 1024-byte buffer.',
  ['c/src/store.c'], [('os_write_vint / os_write_vll / os_write_voff_t / os_write_i32..u64', 'c/src/store.c'), ('is_read_vint / is_read_vll / is_read_voff_t / is_skip_vints', 'c/src/store.c'), ('os_write_string / is_read_string', 'c/src/store.c')])

p('P02', 'Buffered streams deliver exactly the bytes of the file, in order',
  'For any interleaving of byte writes, block writes, seeks, flushes and position queries on an output stream, the file holds after closing exactly the bytes written, each at the position the stream reported for it, and no other byte of the file changes. For any interleaving of byte reads, block reads, seeks, clones and position queries an input stream returns exactly the bytes of the file at its current position, and raises an end-of-file error when asked for bytes at or beyond the end.',
  ['inputs', 'histories'], 'for every stream state reachable by any history of operations and every operation argument',
  'The stream is a state machine over (buffer start, position, length, file pointer); tests walk a few histories, and boundary states such as a full buffer or a read that straddles two buffers are rarely hit.',
  ['c/src/store.c', 'c/include/store.h'], [('os_write_byte / os_write_bytes / os_seek / os_flush / os_pos', 'c/src/store.c'), ('is_read_byte / is_read_bytes / is_refill / is_seek / is_clone', 'c/src/store.c')])

p('P05', 'A bit vector answers membership, counts and scans exactly',
  'After any sequence of set, unset and clear operations a bit vector reports a bit as set exactly when the last operation on it set it, for every non-negative bit number including ones beyond the allocated words. Forward scans return the smallest matching bit at or after the requested position, or -1 when there is none, and the set-bit count equals the number of set bits after each single-bit update and after a recount. No operation reads or writes outside the allocated words.',
  ['inputs', 'histories'], 'for every bit number, every vector contents and capacity, and every history of updates',
  'Word boundaries, growth and the extension flag interact; tests use a handful of bit numbers.',
  ['c/src/bitvector.c', 'c/include/bitvector.h'], [('bv_set / bv_set_fast / bv_unset / bv_get', 'c/include/bitvector.h'), ('bv_scan_next*, bv_scan_next_unset*', 'c/include/bitvector.h'), ('bv_recount / bv_clear', 'c/src/bitvector.c')])

p('P06', 'Bit vector algebra computes exact set operations',
  'And, or, xor and not of bit vectors, including vectors of different lengths, negated (infinitely extended) vectors and results stored over one of the operands, contain a bit exactly when the boolean combination of the operands contains it, for every bit number. Two bit vectors are equal exactly when they contain the same bits regardless of allocated capacity, and equal vectors hash alike.',
  ['inputs'], 'for every pair of vectors (any length, contents and extension flag), every aliasing of result and operands and every bit number',
  'The combination of lengths, extension flags, stale tail words and aliasing gives hundreds of shapes with 2^n contents each.',
  ['c/src/bitvector.c', 'c/include/bitvector.h'], [('bv_and_i / bv_or_i / bv_xor_i / bv_not_i', 'c/include/bitvector.h'), ('bv_eq / bv_hash', 'c/src/bitvector.c')])

p('P03', 'The in-memory store behaves like a directory of files',
  'In the RAM store a file holds exactly the bytes written to it through its output stream at their positions, across any number of internal buffers, and reads return those bytes at any position and length and raise at the end of the file; copying a RAM file to another stream reproduces it byte for byte. Creating, touching, removing, renaming and clearing files affect exactly the named files: a file exists from its creation until it is removed, renaming moves its contents to the new name and replaces what was there, the store enumerates every file exactly once without the lock files, and a file that is still open stays readable after it has been removed from the directory.',
  ['inputs', 'histories'], 'for every file length, position and block length, and every store contents with any number of files',
  'Contents are spread over 1024-byte buffers in a growing table and file lifetime is governed by reference counts; tests use small files and few files.',
  ['c/src/ram_store.c'], [('ramo_flush_i / ramo_seek_i / ramo_write_to / ramo_grow', 'c/src/ram_store.c'), ('rami_read_i / rami_seek_i', 'c/src/ram_store.c'), ('ram_touch / ram_rename / ram_remove / ram_clear / ram_each / ram_new_output / ram_open_input', 'c/src/ram_store.c')])

p('P04', 'A compound file presents its member files unchanged',
  'Reading a member of a compound file returns exactly the bytes of that member at every position and never bytes of a neighbouring member; reading beyond the end of the member raises an end-of-file error. Building a compound file copies every member completely and records for each the offset where its data starts, so that a reader of the compound file sees each member with its original name, length and bytes.',
  ['inputs'], 'for every set of members, every member length and offset, and every read position and length',
  'The member window is an (offset, length) pair applied to every read; tests read a few small members from the start.',
  ['c/src/compound_io.c'], [('cmpdi_read_i / cmpdi_seek_i / cmpdi_length_i', 'c/src/compound_io.c'), ('cw_copy_file / cw_close / cw_add_file', 'c/src/compound_io.c'), ('open_cmpd_store / cmpd_open_input / cmpd_length / cmpd_exists', 'c/src/compound_io.c')])

p('P07', 'Hash maps and sets behave as mathematical maps and sets',
  'After any sequence of operations a hash map returns for each key the value last stored under an equal key, and nothing for keys that are absent or were removed, regardless of collisions, deleted slots and table growth; its size equals the number of live keys; iteration visits every live key exactly once; and keys and values that are replaced or deleted are released exactly once. A hash set keeps one of equal elements, in insertion order, and removing an element keeps the order, links and count of the others.',
  ['inputs', 'histories'], 'for every key set, hash function, collision pattern and history of operations',
  'Open addressing with tombstones fails only for particular collision and deletion patterns.',
  ['c/src/hash.c', 'c/src/hashset.c'], [('h_lookup / h_lookup_ptr / h_resize', 'c/src/hash.c'), ('h_set / h_set_safe / h_get / h_del / h_rem / h_has_key / h_each / h_clear', 'c/src/hash.c'), ('hs_add / hs_add_safe / hs_rem / hs_del / hs_orig', 'c/src/hashset.c')])

p('P08', 'A bounded priority queue keeps the best elements in order',
  'A priority queue of capacity n always has its least element on top; popping returns the elements in ascending order; inserting into a full queue keeps the n greatest of the elements offered so far, releases the element that drops out exactly once and reports whether the new element replaced another, was added or was rejected. Restoring the order after the top element changed keeps the same elements in the queue.',
  ['inputs', 'histories'], 'for every queue contents, every order and every capacity',
  'The heap has n! orderings; tests insert one sequence.',
  ['c/src/priorityqueue.c'], [('pq_push / pq_insert / pq_pop / pq_down / pq_up / pq_top / pq_clone', 'c/src/priorityqueue.c')])

p('P09', 'Norm bytes encode field boosts monotonically and stably',
  'Encoding a norm to a byte and decoding it gives the largest representable value not above the original; encoding is monotone; encoding a decoded byte returns the same byte for all 256 bytes; a positive norm never encodes to zero and a value too large to represent encodes to the largest byte. The similarity decodes bytes through a table that equals the decoder.',
  ['inputs'], 'for all 2^32 floats and all 256 bytes',
  'Tests encode a handful of values.',
  ['c/src/helper.c', 'c/src/similarity.c'], [('float2byte / byte2float', 'c/src/helper.c'), ('simdef_encode_norm / simdef_decode_norm / sim_create_default', 'c/src/similarity.c')])

p('P11', 'A term\'s postings are read back exactly as the documents were indexed',
  'Indexing a field adds every token at its position (the running sum of the increments), with its offsets shifted past the values before it; an untokenized value becomes one term per value, cut so that it fits a term buffer. A flushed segment records, for every term, its document frequency and, for every document, the frequency and all positions, with skip entries that agree with the postings. The enumerator of a term delivers exactly the documents that hold it and are not deleted, ascending, each with its frequency and its positions in order; reading in blocks delivers the same; skipping to a document lands on the first remaining one that is not before it, with the right frequency and positions, for every skip interval; and seeking another term leaves nothing of the previous one.',
  ['inputs', 'histories'], 'for every set of documents, token positions, deletions, skip interval and sequence of enumerator operations',
  'Delta coding, the frequency-one flag, deleted documents and skip entries interact only for particular gaps, frequencies and targets.',
  ['c/src/index.c'], [('stde_next / stde_read / stde_skip_to / stde_seek_ti', 'c/src/index.c'), ('stpe_next / stpe_next_position / stpe_seek_te', 'c/src/index.c'), ('dw_invert_field / dw_add_posting / dw_add_offsets / dw_flush', 'c/src/index.c'), ('skip_buf_add / skip_buf_write', 'c/src/index.c')])

p('P12', 'Several indexes searched together behave as one index',
  'A multi-reader and a multi-searcher number the documents of their sub-indexes consecutively. Every operation on a document number (fetching, lazy fetching, term vectors, deletion state, deleting, setting a norm, explaining) reaches the one sub-index that holds the document, with its local number and its own field number. Document counts, document frequencies and hit totals are the sums over all sub-indexes; norms of a sub-index lie in its range; data cached for a field or for the document count is dropped when it becomes stale. The postings of a term are those of the sub-indexes that have it, in order, with shifted numbers, and after seeking a term that no index has there are none. Searching, visiting matches and unscored scans return every hit of every sub-index with its shifted number.',
  ['inputs', 'histories'], 'for every number and size of sub-indexes (empty ones included), every document number, field mapping and operation',
  'Tests combine two or three small indexes; ranges, empty indexes and stale caches fail only for particular document numbers and histories.',
  ['c/src/index.c', 'c/src/search.c'], [('mr_reader_index_i / msea_get_searcher_index', 'c/src/index.c, c/src/search.c'), ('mr_get_doc .. mr_set_norm_i, mr_num_docs, mr_doc_freq, mr_get_norms, mr_new', 'c/src/index.c'), ('mtde_seek / mtde_next / mtde_read / mtde_skip_to', 'c/src/index.c'), ('msea_*', 'c/src/search.c')])

p('P16', 'A search returns exactly the requested page of the ranked matches',
  'A search over an index returns, for every first document and page size including sizes near the integer limit, the hits of ranks first .. first+size-1 in order: by descending score, ties by ascending document number, or by the requested sort order. Every document that matches and passes the filters is counted once in the total; the maximum score is that of the best hit. Visiting all matches delivers each of them once with its score, and an unscored scan returns the matches from the requested document on, in order, up to the limit.',
  ['inputs'], 'for every result set, scores and ties, filters, sort keys, page start and page size',
  'The result queue keeps only first+size hits; wrong ranks show only for particular score orders, ties and sizes.',
  ['c/src/search.c', 'c/src/sort.c'], [('isea_search_w / isea_search_each_w / isea_search_unscored_w', 'c/src/search.c'), ('hit_pq_insert / hit_pq_pop / hit_pq_down / hit_pq_up', 'c/src/search.c'), ('fshq_lt / fshq_pq_insert / fshq_pq_down / sort comparators', 'c/src/sort.c')])

p('P14', 'A boolean query matches exactly the documents its clauses call for',
  'The clauses of a boolean query are combined so that a document matches exactly when every required clause has it (or, without required clauses, at least one optional clause), and no prohibited clause has it; a query with only prohibited clauses matches nothing, and neither does one with a required clause that has no documents. Walking or skipping through the matches delivers them in ascending order without passing one over or delivering a false one, for every interleaving of next and skip operations; optional clauses never change which documents match when there are required ones. The score of a match adds the scores of exactly the positive clauses that have the document, each asked only while it stands on it.',
  ['inputs', 'histories'], 'for every set of documents of every clause and every interleaving of next and skip_to',
  'The scorers advance several cursors against each other; a wrong match needs particular gaps between the documents of the clauses and a particular order of next and skip_to.',
  ['c/src/q_boolean.c'], [('counting_sum_scorer_create*, bsc_add_scorer, bw_scorer', 'c/src/q_boolean.c'), ('csc_next / csc_skip_to', 'c/src/q_boolean.c'), ('dssc_next / dssc_skip_to', 'c/src/q_boolean.c'), ('rxsc_next / rxsc_skip_to', 'c/src/q_boolean.c'), ('rossc_* / smsc_* / bsc_*', 'c/src/q_boolean.c')])

p('P17', 'The list of segments is reopened exactly as it was saved',
  'Reading a segments file gives the list that was written: every segment in order with its name, document count, deletion generation, norm generation of every field and file kind, together with the version and the counter for new names; the set of deleted documents read from a deletions file is the one written. A number written into a file name reads back as the same number, file names of different generations, extensions and fields differ, the current generation is the highest among the segments files in the directory whatever order the directory lists them in, and a new segment gets a name no earlier segment had.',
  ['inputs', 'histories'], 'for every list of segments, every generation number and every directory listing',
  'Tests save and reopen indexes with a few segments, generations of one digit and few fields.',
  ['c/src/index.c'], [('sis_write / sis_read_i / si_write / si_read', 'c/src/index.c'), ('u64_to_str36 / str36_to_u64 / fn_for_generation / fn_for_gen_field / segfn_for_generation', 'c/src/index.c'), ('which_gen_i / sis_current_segment_generation / sis_curr_seg_file_name', 'c/src/index.c'), ('sis_new_segment / new_segment', 'c/src/index.c'), ('bv_write / bv_read', 'c/src/index.c')])

p('P18', 'A commit never touches a file the previous index still needs',
  'Deletions and norms are committed under the next generation\'s file name, so that the files of the current list of segments are never overwritten; the files they replace are only queued for removal, and only files that were replaced are queued. Flushing and merging write the new segment, then the new list of segments, and only then remove the files of the segments that were replaced; dropping merged segments from the list releases exactly those and keeps the others in order. Deleting, undeleting and setting a norm mark exactly what has to be written at the next commit, and cleaning up a directory removes exactly the index files that the current list of segments does not refer to.',
  ['inputs', 'histories', 'crash_points'], 'for every segment, generation, field and history of changes, every range of merged segments and every directory contents',
  'A file that is still needed being overwritten or removed shows only when the process stops, or another reader opens the index, between two particular steps.',
  ['c/src/index.c'], [('sr_commit_i / norm_rewrite / si_advance_norm_gen', 'c/src/index.c'), ('iw_merge_segments / iw_flush_ram_segment / iw_commit_i / ir_commit_i', 'c/src/index.c'), ('sis_del_from_to / sis_del_at / sis_clear', 'c/src/index.c'), ('deleter_find_deletable_files_i / deleter_find_deletable_files', 'c/src/index.c'), ('sr_delete_doc_i / sr_undelete_all_i / sr_set_norm_i', 'c/src/index.c')])

p('P13', 'Merging segments and adding indexes loses and invents nothing',
  'Merging segments gives one segment that holds exactly the documents that were not deleted, numbered consecutively in the order of the segments, each with its stored fields, term vectors and norms, and for every term exactly the postings (document, frequency, positions, skip entries) of the remaining documents; terms come out once each, in order, and a term without remaining documents disappears. Adding an index to another copies its segments completely, translates field numbers where the two field lists differ, and keeps deleted documents deleted.',
  ['inputs', 'histories'], 'for every set of segments, deletions, terms and field lists',
  'Tests merge a few small segments; renumbering around deletions, norms kept beside a compound file and differing field lists fail only in particular combinations.',
  ['c/src/index.c'], [('smi_load_doc_map / smi_new / sm_create', 'c/src/index.c'), ('sm_merge_fields / sm_merge_norms / sm_append_postings / sm_merge_term_infos / sm_merge_term_info', 'c/src/index.c'), ('iw_add_segment / iw_cp_fields / iw_cp_terms / iw_cp_norms', 'c/src/index.c')])

p('P21', 'Field definitions are kept exactly as declared',
  'A field has exactly the properties (stored, compressed, indexed, tokenized, norms, term vectors, positions, offsets) that its declaration asks for; fields are numbered in the order they are added, keep their numbers for good and are found by name and by number; a field that is met without a declaration gets the defaults of the list. A saved list of fields reads back with the same defaults, names, numbers, boosts and properties, and joining the lists of several indexes gives every field all the properties it has in any of them.',
  ['inputs', 'histories'], 'for every combination of declarations, every list of fields and every join of lists',
  'There are 75 combinations of declarations and any order of fields; tests declare a few.',
  ['c/src/index.c', 'c/include/index.h'], [('fi_new / fi_set_store / fi_set_index / fi_set_term_vector', 'c/src/index.c'), ('fis_new / fis_add_field / fis_get_or_add_field / fis_get_field_num / fis_by_number', 'c/src/index.c'), ('fis_write / fis_read', 'c/src/index.c'), ('mr_open / iw_add_segment', 'c/src/index.c')])

p('P10', 'Exactly the terms that were indexed are found in the term dictionary',
  'Looking up a term in a field gives its document frequency and the places of its postings exactly when the field has the term, whatever was looked up before and in whichever field; enumerating a field gives every term once, in order, from the first or from any given term, and the n-th term is the same from wherever the enumeration stands. This holds for prefix-compressed terms of any content, any index interval and any number of fields, and across several segments, where frequencies add up and a term comes once.',
  ['inputs', 'histories'], 'for every set of terms and fields, every interval, and every history of lookups and moves of an enumeration',
  'Front coding, the sparse index and the state of the enumeration interact; a wrong term needs a particular order of lookups around the index entries.',
  ['c/src/index.c', 'c/src/helper.c'], [('tiw_add / tw_add / tiw_start_field', 'c/src/index.c'), ('ste_next / ste_scan_to / ste_get_term / sti_get_index_offset / sti_ensure_index_is_read', 'c/src/index.c'), ('tir_get_ti / tir_get_ti_field / tir_set_field', 'c/src/index.c'), ('mte_next / mte_skip_to / mte_set_field / mte_new', 'c/src/index.c'), ('hlp_string_diff', 'c/src/helper.c')])

p('P22', 'Stored fields are read back exactly as they were given',
  'Reading a stored document gives exactly the fields that are declared stored, in the order they were added, each with the same number of values and the same bytes, of any length and content, whether they are kept compressed or not, and whether the document is read whole or field by field; a range of bytes asked of a field gives those bytes of its values joined by single spaces, or is refused when the range is not inside the field.',
  ['inputs', 'histories'], 'for every document: any fields, number and length of values, any bytes, compressed or not, any range',
  'Lengths and bytes are stored apart, and compressed values cross buffer borders; a wrong offset needs a particular mix of fields, lengths and ranges.',
  ['c/src/index.c'], [('fw_add_doc / fr_get_doc', 'c/src/index.c'), ('fr_get_lazy_doc / lazy_df_get_data / lazy_df_get_bytes', 'c/src/index.c'), ('os_write_zipped_bytes / is_read_zipped_bytes', 'c/src/index.c'), ('fr_read_zipped_fields', 'c/src/index.c')])

p('P23', 'Term vectors hold exactly the terms, positions and offsets of their document',
  'The term vector of a field gives every term of that field of that document once and in order, with its frequency and, where asked for, its positions and the start and end of every token; it is the same whether the vector is asked for alone or with all the vectors of the document, also next to fields without terms; a field that stores no vector, and a document that is not there, give none. A term is found in a vector exactly when it is there. Adding a document leaves nothing of one field in the vectors of another.',
  ['inputs', 'histories'], 'for every document, every combination of stored positions and offsets, and every order and emptiness of fields',
  'Vectors lie one behind the other and are found by their sizes counted back from an index; a wrong one needs a particular mix of empty, absent and stored fields.',
  ['c/src/index.c', 'c/src/term_vectors.c'], [('fw_add_postings / fw_write_tv_index', 'c/src/index.c'), ('fr_get_tv / fr_get_field_tv / fr_read_term_vector', 'c/src/index.c'), ('tv_scan_to_term_index / tv_get_term_index', 'c/src/term_vectors.c'), ('dw_add_doc / dw_add_offsets', 'c/src/index.c')])

p('P25', 'Wildcard, prefix, range and fuzzy queries take exactly the terms that fit',
  'A wildcard pattern matches exactly the texts it describes (? one character, * any number, also none); a prefix, wildcard, range or fuzzy query matches the documents of exactly those terms of its field that fit: start with the prefix, match the pattern, lie between the bounds (ends included or not as asked), or are within the edit distance that the asked similarity allows, weighted by their similarity. This holds for patterns and bounds of any length and any dictionary; a field without terms gives nothing; and the boost of the query is kept.',
  ['inputs', 'histories'], 'for every pattern, prefix, range and word, and every dictionary',
  'Patterns and dictionaries meet in unbounded ways: bounds between, on and outside terms, patterns longer than any term, early stops of the enumeration and of the distance computation.',
  ['c/src/q_wildcard.c', 'c/src/q_prefix.c', 'c/src/q_range.c', 'c/src/q_fuzzy.c'], [('wc_match / wcq_rewrite', 'c/src/q_wildcard.c'), ('prq_rewrite', 'c/src/q_prefix.c'), ('rfilt_get_bv_i / rq_rewrite / trq_rewrite / rq_get_matchv_i', 'c/src/q_range.c'), ('fuzq_score / fuzq_score_mn / fuzq_rewrite', 'c/src/q_fuzzy.c')])

p('P40', 'Concurrent readers and the writer see consistent index states',
  'Any number of threads may search through one reader and others may open readers while a writer adds documents and commits: every reader keeps showing the commit it was opened on, no thread sees a partly built shared structure, and no interleaving corrupts an index or loses an update.',
  ['schedules'], 'for every interleaving of threads that share readers, stores and the global symbol and thread-local tables',
  'Tests run a few threads and see a handful of the interleavings.',
  ['c/src/index.c', 'c/src/store.c', 'c/include/threading.h'], [('mutex_lock / mutex_unlock around ir, store and deleter state', 'c/src/index.c'), ('thread_once / thread_getspecific', 'c/include/threading.h')],
  na='sequential contracts: CBMC code contracts have no ownership or rely/guarantee reasoning for pthread mutexes, and no concurrent separation-logic verifier for C is installed; the sequential behaviour between lock and unlock is what the other properties decide.')

p('P41', 'A crash of the machine leaves the last committed index on disk',
  'When the machine stops at any point while documents are added, segments merged or a commit is written, the index directory on disk opens afterwards as the last completed commit or the one being made, never as a mixture.',
  ['crash_points'], 'for every crash point and every order in which the file system persists writes and renames',
  'Tests never stop the process between two system calls.',
  ['c/src/fs_store.c', 'c/src/index.c'], [('fs_new_output / fso_flush_i / fs_rename', 'c/src/fs_store.c'), ('sis_write', 'c/src/index.c')],
  na='the order in which the kernel persists data is not in the code under contract, and the code never calls fsync, so nothing about it can be discharged; the part that is in the code (no file of the last commit is touched before the new list is written) is P18.')

p('P42', 'An error raised anywhere unwinds without leaving broken state',
  'When an operation raises an error (missing file, end of file, failed write, lock not obtained) the error reaches the nearest handler exactly once, clean-up sections run exactly once, and the objects involved can still be closed or used for another attempt.',
  ['fault_sequences'], 'for every point where an error can be raised, nested to any depth',
  'Each error path would need a fault injected at that point; tests provoke only a few.',
  ['c/src/except.c', 'c/include/except.h'], [('xraise / TRY / XFINALLY / XCATCHALL / XENDTRY', 'c/include/except.h')],
  na='errors are raised with longjmp across frames: goto-instrument contracts and CBMC have no semantics for setjmp/longjmp, so the check replaces xraise by a stop (the path ends) and the handlers are not executed.')

p('P43', 'Scores follow the documented tf-idf formula',
  'The score of a document for a query is the documented combination of term frequency, inverse document frequency, boosts, field norm, coordination and query normalisation, the same through single and multi searchers, and the explanation of a hit multiplies out to its score.',
  ['inputs'], 'for every query tree and every term statistic',
  'Tests compare a few scores against constants.',
  ['c/src/similarity.c', 'c/src/q_term.c', 'c/src/search.c'], [('sim_idf / sim_tf / sim_query_norm / sim_coord', 'c/src/similarity.c'), ('tsc_score / tw_explain', 'c/src/q_term.c')],
  na='the formula is real arithmetic over sqrt and log in floats: CBMC decides floats bit by bit with no theory of log or sqrt, so only structural facts (which documents, which order given the scores) are within reach (P14, P16); norm encoding is P09.')

p('P44', 'A query string is parsed to the query it denotes',
  'For every query string the parser either raises a parse error or builds the query its grammar denotes, and the text form of a parsed query parses back to an equal query.',
  ['inputs', 'programs'], 'for every query string and parser option',
  'The input space is unbounded; tests use a table of strings.',
  ['c/src/q_parser.c'], [('yyparse / yylex / qp_parse', 'c/src/q_parser.c')],
  na='the parser is bison-generated: its behaviour lies in tables and a stack machine with longjmp error recovery; contracts on yyparse would restate the table interpreter, and the grammar meaning is not expressible as a function contract within reach.')

p('P45', 'The Ruby binding keeps native objects alive exactly as long as Ruby does',
  'Objects handed to Ruby stay valid while Ruby references them, are freed exactly once afterwards, and errors raised in C arrive as Ruby exceptions.',
  ['histories'], 'for every history of Ruby calls and garbage collections',
  'The collector runs at unpredictable points.',
  ['ruby/ext/r_index.c', 'ruby/ext/r_search.c', 'ruby/ext/ferret.c'], [('object_add / object_del / frt_*_free and mark functions', 'ruby/ext/ferret.c')],
  na='needs the Ruby run-time (garbage collector, value representation) as specified context; no Ruby headers or contracts for them exist in this sandbox and the extension is not part of the build.')
