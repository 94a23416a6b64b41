"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
ALL = []
CRC_ONLY = 'The test suite only runs CRC-32C vectors; '


def P(id, title, statement, over, text, why, mech, state=None, observe=None):
    files = sorted(set(w.split(':')[0] for _, w in mech))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    ALL.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why, 'anchors': a})


P('D01', 'Decoding any stored entry is memory-safe and all-or-nothing',
  'For every key and value byte string, decoding an entry either yields an entry or reports failure; it never reads outside the key and value, never aborts and never leaves a partly filled entry visible. '
  'Keys of an undocumented type, of zero length or truncated in any field are refused.',
  ['inputs'], 'every key/value byte string', CRC_ONLY + 'no test decodes an entry, and a corrupt or truncated database file can present any byte string.',
  [('entry decoder', 'dnstable/entry.c:dnstable_entry_decode'), ('time/count codec', 'dnstable/triplet.c:triplet_unpack'), ('bounded integer decoding', 'dnstable/entry.c:decode_rdata')],
  observe=['dnstable_entry_decode', 'dnstable_entry_get_*'])
P('D02', 'Decoding returns exactly the fields that were encoded',
  'An entry built from a name, bailiwick, record type, data, times and count by the documented file format decodes to exactly those values, with names put back in wire order. '
  'Every accessor reports a field only for the entry types that have it.',
  ['inputs'], 'every entry of every documented type', CRC_ONLY + 'field boundaries depend on variable-length integers and on name lengths in combination.',
  [('entry decoder', 'dnstable/entry.c:dnstable_entry_decode'), ('accessors', 'dnstable/entry.c:dnstable_entry_get_rrname')])
P('D03', 'Times and counts survive being stored',
  'Every triple of first-seen, last-seen and count (and every pair of times) that is packed into a stored value is unpacked to the same numbers, and the packed form has a bounded size. Unpacking any byte string is memory-safe and refuses values that are truncated or have trailing bytes.',
  ['inputs'], 'every 64-bit time and count; every byte string', CRC_ONLY + 'the codec changes length with the magnitude of each number.',
  [('pack', 'dnstable/triplet.c:triplet_pack'), ('unpack', 'dnstable/triplet.c:triplet_unpack')])
P('D04', 'Merging duplicate entries gives the right summary, in any order',
  'Merging two entries of the same key yields the earliest first-seen, the latest last-seen and the sum of the counts; merged time ranges cover exactly the union hull, and a merged version is the smallest with unreadable or unknown values treated as documented. '
  'The result does not depend on the order or grouping in which inputs are merged.',
  ['inputs', 'histories'], 'every pair and triple of values, for every entry type, in every order', CRC_ONLY + 'merging is a fold over an arbitrary number of files in arbitrary order.',
  [('merge callback', 'dnstable/merge.c:dnstable_merge_func'), ('codec', 'dnstable/triplet.c:triplet_pack')])
P('D05', 'Merging record-type sets gives exactly their union',
  'Merging two stored record-type sets yields the canonical encoding of their union, whatever mixture of the single-type, array and bitmap forms the inputs use, and never loses, invents or reorders a type. Merging never aborts or writes outside its buffers.',
  ['inputs'], 'every pair of record-type sets in every stored form', CRC_ONLY + 'the forms switch at set-size and value thresholds over a 65536-element domain.',
  [('union', 'dnstable/merge.c:dnstable_merge_func'), ('bitmap form', 'dnstable/merge.c:merge_rrtype_bitmaps')])
P('D06', 'Reading a record-type set agrees with its contents',
  'Listing the types of a stored record-type set and testing a single type for membership agree with each other and with the stored form, in all three forms. For corrupt data both are memory-safe: membership answers conservatively and listing fails.',
  ['inputs'], 'every stored byte string and every record type', CRC_ONLY + 'every byte string can be presented by a database.',
  [('membership', 'dnstable/entry.c:rrtype_test'), ('listing', 'dnstable/entry.c:rrtype_union_unpack')])
P('D07', 'A query returns exactly the entries that satisfy its filters',
  'An entry whose name, data or type a query asks for is returned exactly if its record type, bailiwick and first- and last-seen times satisfy every filter set on the query; names compare without regard to case unless the query is case-sensitive; and the entry handed out is the stored one. '
  'The filters never read outside a stored key or value, whatever bytes it has, and filtering a decoded entry by the same query gives the same verdict.',
  ['inputs', 'configurations'], 'every entry and every combination of filters', CRC_ONLY + 'filters combine with entry types and truncated keys.',
  [('type filter', 'dnstable/query.c:filter_rrtype'), ('bailiwick filter', 'dnstable/query.c:filter_bailiwick'), ('time filter', 'dnstable/query.c:filter_time_common'), ('filtering of entries', 'dnstable/query.c:dnstable_query_filter')],
  observe=['dnstable_query_iter', 'dnstable_iter_next', 'dnstable_query_filter'])
P('D08', 'Single-label wildcards match exactly one label',
  'A query whose name begins or ends with a + label matches a stored name exactly if the names agree once that label stands for one whole label. The skip-ahead it uses after a name that does not match never jumps over a later match, alone or together with a type filter.',
  ['inputs', 'histories'], 'every wildcard pattern and every name', CRC_ONLY + 'the match interacts with reversed names and label lengths, and the skip depends on the name it skips from.',
  [('match and seek', 'dnstable/query.c:filter_single_label'), ('next key', 'dnstable/query.c:increment_key')], observe=['dnstable_query_iter', 'dnstable_iter_next'])
P('D09', 'Address-range queries visit every address record in range and no other',
  'A query for an address or an address range returns exactly the A or AAAA records whose address lies in the range, and the seeks it makes over entries of other types, whose data need not be as long as an address, never skip one.',
  ['inputs', 'histories'], 'every range and every stored address', CRC_ONLY + 'ranges cross byte and record-length boundaries.',
  [('address filter', 'dnstable/query.c:filter_rrtype_ip'), ('range scan', 'dnstable/query.c:query_init_rdata_ip')], observe=['dnstable_query_iter', 'dnstable_iter_next'])
P('D10', 'Address prefixes and ranges denote the addresses they should',
  'For every address and every prefix length from zero to the address width, the first and last address of the prefix are the ones with the host bits cleared and set, and the next address is the numerical successor. '
  'A query for address/length returns exactly the records in that prefix. Prefix lengths that are too large or no numbers, incomplete ranges and ranges of mixed families are refused, and a refused text leaves the query as it was.',
  ['inputs', 'configurations'], 'every IPv4 and IPv6 address, every prefix length and every short length text', CRC_ONLY + 'shift widths of 0, 32, 64 and 128 are exactly the cases sampling misses.',
  [('mask arithmetic', 'libmy/ip_arith.h'), ('prefix parsing', 'dnstable/query.c:query_set_data_rdata_ip_prefix'), ('range parsing', 'dnstable/query.c:query_set_data_rdata_ip_range')], observe=['dnstable_query_set_data', 'ip4_lower', 'ip6_upper'])
P('D11', 'A query scans exactly the keys that can match it',
  'A query by name finds a stored entry exactly if the names are equal, where a leading or trailing * stands for any number of whole labels, in either kind of name query and whether or not the index lists the types of a name. '
  'A query by raw data finds entries with equal data and none whose data differ within the common length. Queries for the time range, version or source information find exactly the entries of that kind.',
  ['inputs', 'configurations'], 'every query kind and every key', CRC_ONLY + 'ranges are byte-prefix computations over reversed and forward names.',
  [('rrset scan', 'dnstable/query.c:query_init_rrset'), ('rdata name scan', 'dnstable/query.c:query_init_rdata_name'), ('wildcards', 'dnstable/query.c:is_right_wildcard'), ('raw data scan', 'dnstable/query.c:query_init_rdata_raw'), ('indirection', 'dnstable/query.c:query_iter_next_name_indirect')],
  observe=['dnstable_query_iter', 'dnstable_iter_next'])
P('D12', 'Aggregated and unaggregated views of several files agree',
  'Querying a set of files aggregated returns, per key, the merge of all files\' entries; unaggregated it returns each file\'s entries. Time fences apply after merging when aggregated and per file entry when not.',
  ['histories', 'configurations'], 'every distribution of entries over files and every time fence', CRC_ONLY + 'it depends on how entries are split across files.',
  [('aggregation', 'dnstable/query_mtbl.c'), ('dispatch', 'dnstable/query.c')])
P('D13', 'Set combinators over sources compute their set operation',
  'The source combinators used by queries (merging matching entries of a second source, filtering, removal of keys present in other sources) return exactly the entries of their set-theoretic meaning, in order, from any starting position within the requested bounds, for any interleaving of reads and seeks; destroying them releases everything they opened.',
  ['histories', 'inputs'], 'every pair of small sorted tables and every sequence of next and seek', CRC_ONLY + 'seeks interact with look-ahead state.',
  [('left join', 'dnstable/query_mtbl.c:ljoin_mtbl_source_init'), ('filter', 'dnstable/query_mtbl.c:filter_mtbl_source_init'), ('remove', 'dnstable/query_mtbl.c:remove_mtbl_source_init')])
P('D14', 'Result iteration respects offset and deadline, and resources balance',
  'Reading a result returns its entries in order until the end. A read is given up exactly when the deadline or the time limit of the query has passed on the monotonic clock, and it then reports a time-out. The first entries up to the requested offset, counted among those that match, are passed over each time the query is run. Destroying iterators and queries at any point releases everything they opened.',
  ['histories'], 'every number of results, offset, clock behaviour and place to stop', CRC_ONLY + 'time-outs depend on the clock, and leaks are invisible to them.',
  [('iterator', 'dnstable/iter.c:dnstable_iter_next'), ('deadline', 'dnstable/query.c:query_iter_set_deadline'), ('time limit in the source', 'dnstable/query_mtbl.c:timeout_iter_next'), ('offset', 'dnstable/query.c:filter_offset'), ('release', 'dnstable/query.c:query_iter_free')])
P('D15', 'JSON and text output is well-formed and faithful',
  'Every emitted string is valid, correctly escaped JSON and every number, time and hexadecimal field denotes the stored value, for all stored values.',
  ['inputs'], 'every stored value', CRC_ONLY + 'control characters, large numbers and far-future times are never sampled.',
  [('formatting', 'dnstable/entry.c:dnstable_entry_to_json'), ('time formatting', 'dnstable/util.c')])
P('D17', 'Query parameters are validated and bad ones refused',
  'Every filter parameter, record type, bailiwick and data text a query accepts has exactly its documented effect on what the query lets through, whatever was set before; clearing one removes its effect; and a malformed or unsupported one is refused with an error text and without crashing.',
  ['inputs', 'configurations', 'histories'], 'every sequence of calls, parameter value and text', CRC_ONLY + 'parsers see arbitrary user text.',
  [('filter parameters', 'dnstable/query.c:dnstable_query_set_filter_parameter'), ('record type', 'dnstable/query.c:dnstable_query_set_rrtype'), ('bailiwick', 'dnstable/query.c:dnstable_query_set_bailiwick'), ('data', 'dnstable/query.c:dnstable_query_set_data')],
  observe=['dnstable_query_filter', 'dnstable_query_get_error'])
P('D18', 'Names of entry types, stages and categories round-trip',
  'Converting an entry type, statistics stage or statistics category to its name and back gives the same value; exactly the defined ones have names; and every other text is refused and changes nothing. Stage and category names are read in any letter case.',
  ['inputs'], 'every number and every string', CRC_ONLY + 'no test calls the converters.',
  [('entry types', 'dnstable/entry.c:dnstable_entry_type_from_string'), ('stages', 'dnstable/util.c:dnstable_stat_str_to_stage'), ('categories', 'dnstable/util.c:dnstable_stat_str_to_category')])
P('L01', 'Variable-length integers round-trip and stay in bounds',
  'Encoding then decoding any 32- or 64-bit integer gives it back, the encoded length is the one announced, and decoding any terminated byte string within the maximum length is memory-safe. Measuring a packed integer never reads beyond the given length.',
  ['inputs'], 'every 32- and 64-bit value and every byte string', CRC_ONLY + 'lengths change at ten thresholds.',
  [('codec', 'libmy/varint.c')])
P('L02', 'Base32 coding is exact and bounded',
  'Base32hex encoding produces exactly the standard text for every input and decoding it restores the bytes; both stay within the given buffers, including when the buffer is too small.',
  ['inputs'], 'every byte string and buffer size', CRC_ONLY + 'no test calls it.',
  [('encode', 'libmy/b32_encode.c:base32_encode'), ('decode', 'libmy/b32_decode.c:base32_decode')])
P('L03', 'Streaming base64 is exact however the data is split',
  'Base64 encoding and decoding give the standard result whatever way the data is cut into successive calls, and decoding any characters is memory-safe.',
  ['inputs', 'histories'], 'every byte string and every split into blocks', CRC_ONLY + 'the codec is a resumable state machine.',
  [('encode', 'libmy/b64_encode.c:base64_encode_block'), ('decode', 'libmy/b64_decode.c:base64_decode_block')])
P('L04', 'All CRC-32C implementations compute CRC-32C',
  'The table-driven and hardware checksum implementations, and whichever of them is selected at run time, return the standard CRC-32C of every buffer at every alignment and length.',
  ['inputs', 'configurations'], 'every buffer, alignment and length; either processor capability', 'The tests are a fixed list of vectors at one alignment, on whichever implementation the machine selects; a table entry or tail path that no vector touches is untested.',
  [('tables', 'libmy/crc32c-slicing.c'), ('hardware', 'libmy/crc32c-sse42.c'), ('dispatch', 'libmy/crc32c.c')])
P('L05', 'The heap always yields the minimum',
  'After any sequence of additions, heap construction, replacements and removals, the heap yields its items in order, each exactly once, and peeking or indexing an empty heap is safe.',
  ['histories'], 'every sequence of operations and every ordering of items', CRC_ONLY + 'the heap has no test.',
  [('heap', 'libmy/heap.c')])
P('L06', 'The queue is first-in first-out between one producer and one consumer',
  'Elements come out of the queue in the order they went in, unaltered and exactly once, and insertion or removal fails only when the queue is full or empty, under every interleaving of one producer and one consumer; the reported room is consistent.',
  ['schedules', 'histories'], 'every interleaving of a producer and a consumer', CRC_ONLY + 'schedules cannot be sampled exhaustively.',
  [('memory-barrier queue', 'libmy/my_queue_mb.c'), ('mutex queue', 'libmy/my_queue_mutex.c')])
P('L07', 'Growable vectors and byte buffers keep their contents',
  'Appending, reserving, clipping, advancing and detaching preserve exactly the elements they should, whatever the sizes, and formatted appends add exactly the formatted text.',
  ['histories', 'inputs'], 'every sequence of operations', CRC_ONLY + 'growth thresholds depend on history.',
  [('vector', 'libmy/vector.h:VECTOR_GENERATE'), ('byte buffer', 'libmy/ubuf.h')])
P('L08', 'Hexadecimal decoding accepts exactly hexadecimal',
  'Decoding succeeds exactly for even-length strings of hexadecimal digits and then yields the bytes they denote; anything else is refused without a leak or out-of-bounds access.',
  ['inputs'], 'every string', CRC_ONLY + 'no test calls it.', [('decoder', 'libmy/hex_decode.h')])
P('L09', 'String replacement replaces every occurrence',
  'Replacing one substring by another yields the text with each non-overlapping occurrence, left to right, substituted.',
  ['inputs'], 'every text, pattern and replacement', CRC_ONLY + 'no test calls it.', [('replacement', 'libmy/string_replace.h')])
P('L10', 'Time arithmetic is exact',
  'Adding, subtracting and comparing times gives the mathematically exact normalised result, and conversions to and from floating-point seconds stay within their precision.',
  ['inputs'], 'every normalised pair of times', CRC_ONLY + 'carry and borrow at the nanosecond boundary are not sampled.', [('time helpers', 'libmy/my_time.h')])
P('L11', 'The rate limiter never exceeds its rate',
  'The rate limiter sleeps so that calls proceed no faster than the requested rate, and it never waits for more than one period or moves its schedule backwards, for every clock reading.',
  ['histories'], 'every sequence of clock readings', CRC_ONLY + 'it depends on clock behaviour.', [('limiter', 'libmy/my_rate.c')])
P('L12', 'Linked lists stay consistent',
  'After any sequence of list operations, forward and backward traversals agree and contain exactly the elements inserted and not removed.',
  ['histories'], 'every sequence of operations', CRC_ONLY + 'no test uses the lists.', [('list macros', 'libmy/list.h')])
P('L13', 'Search trees stay ordered and balanced',
  'After any sequence of insertions and removals, trees contain exactly the surviving keys in order, the red-black rules hold, and searches and neighbours agree with the contents.',
  ['histories'], 'every sequence of insertions and removals', CRC_ONLY + 'no test uses the trees.', [('tree macros', 'libmy/tree.h')])
P('L14', 'Hashing does not depend on alignment or form',
  'Hashing the same bytes gives the same value at every alignment and with every equivalent entry point, and reads nothing outside the buffer that affects the result.',
  ['inputs'], 'every key, length, seed and alignment', CRC_ONLY + 'no test calls it; alignment picks one of three code paths.', [('hash', 'libmy/lookup3.c')])
P('L15', 'Timestamps and durations print what they denote',
  'Formatted time and number strings denote exactly the values given and stay within their buffers.',
  ['inputs'], 'every value', CRC_ONLY + 'no test calls it.', [('formatting', 'libmy/my_format.c')])
P('L16', 'A file set tracks its list of files',
  'After each reload that reads the list, the open files are exactly those listed that exist, each opened once however often it is listed; files listed before and after stay open; files no longer listed are closed exactly once. An unchanged list is not reread, a list that could not be read changes nothing and is read again the next time, and the files are visited in the order of their names. Destroying the set closes everything and releases all memory.',
  ['histories', 'fault_sequences'], 'every sequence of list-file contents, existing files and failures to read the list', CRC_ONLY + 'it depends on the history of the list file.',
  [('reload', 'libmy/my_fileset.c:my_fileset_reload'), ('lookup of the open files', 'libmy/my_fileset.c:fetch_entry'), ('change of the list', 'libmy/my_fileset.c:setfile_updated')])
P('L17', 'A spool directory hands out each file once',
  'Each regular file placed in a spool is handed out once, after it has been claimed by moving it; a file that cannot be claimed is passed over and tried again on a later pass; whatever another consumer or a producer does at any moment, nothing already claimed is removed unless a new file of that name takes its place.',
  ['histories', 'fault_sequences', 'schedules'], 'every content of the spool, refusal of the move and act of another process between two system calls', CRC_ONLY + 'it depends on directory history and on other processes.',
  [('claim', 'libmy/spooldir.c:spooldir_next')])
P('L18', 'Reading a byte count reads all of it or fails',
  'A bounded read returns success exactly if all requested bytes were obtained, in order, across short reads and interruptions.',
  ['fault_sequences'], 'every sequence of short reads and errors', CRC_ONLY + 'short reads do not happen on demand.', [('read loop', 'libmy/read_bytes.h')])
P('L19', 'Command-line options are parsed to the values they denote',
  'Parsing options stores exactly the denoted values, reports every malformed or missing argument, and stays in bounds for every argument vector.',
  ['inputs'], 'every argument vector', CRC_ONLY + 'no test covers option parsing.', [('option parser', 'libmy/argv.c')])
P('L20', 'Printed strings are escaped unambiguously',
  'Printing a byte string quotes and escapes every byte so that the printed form determines the bytes.',
  ['inputs'], 'every byte string', CRC_ONLY + 'no test calls it.', [('printer', 'libmy/print_string.h')])
P('L21', 'Atomic helpers have their arithmetic meaning',
  'Each atomic read, set, add, subtract, test and bit operation returns and stores exactly the value its name promises for every operand.',
  ['inputs'], 'every operand', CRC_ONLY + 'no test calls them.', [('atomics', 'libmy/atomic.h'), ('64-bit atomics', 'libmy/atomic_64.h'), ('pointers', 'libmy/atomic_ptr.h')])
P('L22', 'Integer settings from the environment are read exactly or refused',
  'Reading an integer from the environment succeeds exactly if the whole value is a number that fits, and then returns that number.',
  ['inputs'], 'every variable value', CRC_ONLY + 'no test calls it.', [('reader', 'libmy/getenv_int.h')])

# properties never claimed, with the reason
NA = {
    'D12': 'What a file set returns, merged or not, and which files a time fence lets through is decided inside libmtbl (mtbl_fileset, mtbl_merger, the reader filter callbacks), which is not installed here; dnstable only chooses which of two file sets to hand to it. Its own part, the merge function, the time filters and the order of sources, is decided by D05, D09 and D13.',
    'D15': 'Check under construction: formatting is only encoded for some entry types so far.',
    'L13': 'The tree macros rebalance through pointers: with symbolic keys every link becomes a choice among all nodes, and three insertions and one removal did not encode within two minutes and 8 GB. With the keys fixed only concrete runs would be left.',
    'L19': 'The option parser (3,700 lines) converts through strtol, strtod and printf-style formats and works on its whole static state; encoding it would mean modelling most of the C library, and only dnstable_dump uses it.',
}
