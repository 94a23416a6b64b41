from engine import Q
PROPS = {}


def prop(pid, title, queries, **kw):
    PROPS[pid] = dict(title=title, queries=queries, **kw)


prop('D03', 'value codec', [
    Q('triplet_rt', 'h_triplet.c', 'h_triplet_rt', 34, funcs=['triplet_pack', 'triplet_unpack'], bounds='all 64-bit values'),
    Q('pair_rt', 'h_triplet.c', 'h_pair_rt', 34, funcs=['pair_pack', 'pair_unpack'], bounds='all 64-bit values'),
    Q('triplet_any', 'h_triplet.c', 'h_triplet_any', 34, mem=True, defs=['N=6'], funcs=['triplet_unpack'], bounds='n<=6'),
    Q('pair_any', 'h_triplet.c', 'h_pair_any', 34, mem=True, defs=['N=6'], funcs=['pair_unpack'], bounds='n<=6'),
])

def d01():
    qs = []
    mem = ['VH_MEM', 'VH_UCAP=16', 'VH_MCAP=16']
    minlen = {0: 4, 1: 1, 2: 5, 3: 2, 253: 1, 254: 1, 255: 2}
    for t in (0, 1, 2, 3, 253, 254, 255):
        lens = {0: range(1, 11), 1: (1, 6), 2: range(1, 11), 3: range(1, 9), 253: (1, 5), 254: (1, 3), 255: (1, 2, 3)}[t]
        for k in lens:
            v = 3 if t in (0, 2, 1, 3, 253) else 8
            d = list(mem) + ['TYPE=%d' % t, 'K=%d' % k, 'V=%d' % v]
            if t in (1, 253):
                d.append('ALWAYS')
            if k < minlen[t] or (t == 255 and k > 2):
                d.append('NEVER')
            qs.append(Q('type%d_len%02d' % (t, k), 'h_entry.c', 'h_decode_any', max(k, v) + 3, mem=True, defs=d, weight=k + (5 if t in (0, 2) else 0),
                        tier='quick' if k <= (8 if t == 0 else 9) else 'thorough', mem_gb=8,
                        funcs=['dnstable_entry_decode', 'decode_rrset', 'decode_rdata', 'decode_rrset_name_fwd', 'decode_rdata_name_rev',
                               'decode_time_range', 'decode_source_info', 'decode_version', 'decode_val_triplet', 'triplet_unpack', 'pair_unpack',
                               'dnstable_entry_destroy', 'dnstable_entry_get_*'],
                        bounds='key of exactly %d bytes (type %d), value 0..%d bytes' % (k, t, v)))
    for k in (1, 4):
        qs.append(Q('unknown_len%d' % k, 'h_entry.c', 'h_decode_any', 8, mem=True, defs=mem + ['K=%d' % k, 'V=4'], funcs=['dnstable_entry_decode'], bounds='key of %d bytes of any undocumented type' % k))
    qs.append(Q('empty', 'h_entry.c', 'h_decode_empty', 8, mem=True, defs=mem, funcs=['dnstable_entry_decode'], bounds='zero-length key'))
    return qs


prop('D01', 'decode safety', d01())

EF = ['dnstable_entry_decode', 'dnstable_entry_get_*']


def d02():
    base = ['VH_UCAP=24', 'VH_MCAP=24', 'VH_KCAP=36']
    qs = []

    def D(**k):
        return base + ['%s=%d' % x for x in k.items()]
    # all shapes with one-byte types/times, then each varint width on a fixed shape
    for nl1 in (0, 1, 2, 3):
        for nl2 in (0, 1, 2):
            for r in (0, 1, 2):
                big = nl1 + nl2 + r > 5
                qs.append(Q('rrset_%d%d%d' % (nl1, nl2, r), 'h_entry_rt.c', 'h_rrset', 26, defs=D(NL1=nl1, NL2=nl2, R=r), funcs=EF,
                            tier='thorough' if big or (nl1 + nl2 + r) % 2 else 'quick',
                            bounds='rrname of %d and bailiwick of %d one-byte labels, %d rdatas; one-byte rrtype and times' % (nl1, nl2, r)))
    for rt in (1, 2, 3):
        qs.append(Q('rrset_rrtype%d' % rt, 'h_entry_rt.c', 'h_rrset', 26, defs=D(NL1=1, NL2=1, R=1, RTL=rt), funcs=EF, bounds='all rrtypes with a %d-byte encoding' % rt))
        qs.append(Q('rdata_rrtype%d' % rt, 'h_entry_rt.c', 'h_rdata', 26, defs=D(NL1=1, RTL=rt, RL=3, SL=1), funcs=EF, bounds='all rrtypes with a %d-byte encoding' % rt))
    for w in range(1, 11):
        qs.append(Q('rrset_times%02d' % w, 'h_entry_rt.c', 'h_rrset', 36, defs=D(NL1=0, NL2=0, R=0, TL1=w, TL2=(w % 10) + 1, TL3=((w + 4) % 10) + 1), funcs=EF, bounds='all 64-bit times/counts with varint lengths %d,%d,%d' % (w, (w % 10) + 1, ((w + 4) % 10) + 1)))
        qs.append(Q('time_range%02d' % w, 'h_entry_rt.c', 'h_time_range', 26, defs=D(TL1=w, TL2=((w + 2) % 10) + 1), funcs=EF, bounds='all 64-bit times with varint lengths %d,%d' % (w, ((w + 2) % 10) + 1)))
    for rl in range(0, 5):
        for sl in range(0, 3):
            if sl <= rl:
                for nl in (0, 2):
                    qs.append(Q('rdata_%d%d%d' % (rl, sl, nl), 'h_entry_rt.c', 'h_rdata', 26, defs=D(NL1=nl, RL=rl, SL=sl), funcs=EF,
                                tier='quick' if (rl + sl + nl // 2) % 2 == 0 else 'thorough', bounds='rdata of %d bytes, initial slice %d, rrname of %d labels' % (rl, sl, nl)))
    for ll in (1, 2):
        for nl1 in (0, 1, 2, 3):
            for lv in (0, 3):
                qs.append(Q('names_%d%d%d' % (ll, nl1, lv), 'h_entry_rt.c', 'h_names', 26, defs=D(VH_LLEN=ll, NL1=nl1, LV=lv), funcs=EF,
                            bounds='%d labels of %d bytes, rrtype union %d bytes' % (nl1, ll, lv)))
    qs.append(Q('meta', 'h_entry_rt.c', 'h_meta', 26, defs=base, funcs=EF, bounds='all versions and types; source info 0..4 bytes'))
    for n in (255, 256, 300):
        qs.append(Q('rdata_len%d' % n, 'h_entry_rt.c', 'h_rdata_len16', n + 10, defs=['VH_UCAP=%d' % (n + 1), 'VH_MCAP=320', 'BIG=%d' % n], funcs=EF, bounds='rdata of exactly %d bytes' % n, mem_gb=10,
                    flags=['--max-field-sensitivity-array-size', '400']))
    return qs


prop('D02', 'decode fidelity', d02())


def l01():
    F = ['varint_encode32', 'varint_encode64', 'varint_decode32', 'varint_decode64', 'varint_length', 'varint_length_packed']
    return [Q(n, 'h_varint.c', 'h_' + n, 14, mem=True, arith=False, funcs=F, bounds=b) for n, b in (
        ('rt64', 'all 64-bit values'), ('rt32', 'all 32-bit values'), ('any64', 'every byte string of 1..10 bytes ending in a terminator'),
        ('any32', 'every byte string of 1..5 bytes ending in a terminator'), ('unterminated', 'every run of continuation bytes'), ('packed', 'every buffer of 0..12 bytes'))]


prop('L01', 'varint', l01())


def l02():
    F = ['base32_encode', 'base32_decode']
    qs = []
    for n in range(1, 12):
        t = 'quick' if n <= 6 or n == 10 else 'thorough'
        for e in ('enc', 'enc_trunc', 'dec_any', 'dec_pad'):
            if n > 6 and e == 'dec_any':
                continue
            if n == 10 and e != 'enc':
                t = 'thorough'
            qs.append(Q('%s_%02d' % (e, n), 'h_b32.c', 'h_' + e, 34, defs=['N=%d' % n], mem=True, funcs=F, tier=t,
                        unwindset=['base32_decode.0:260'], bounds='every input of %d bytes' % n))
    qs.append(Q('empty', 'h_b32.c', 'h_empty', 34, mem=True, funcs=F, unwindset=['base32_decode.0:260'], bounds='empty input'))
    return qs


prop('L02', 'base32', l02())


def l03():
    F = ['base64_encode_block', 'base64_encode_blockend', 'base64_decode_block', 'base64_decode_value', 'base64_encode_value']
    qs = [Q('value', 'h_b64.c', 'h_value', 8, mem=True, funcs=F, bounds='all 256 characters')]
    for n in range(0, 8):
        for s in range(0, n + 1):
            qs.append(Q('enc_%d_%d' % (n, s), 'h_b64.c', 'h_enc', 18, defs=['N=%d' % n, 'SPLIT=%d' % s], mem=True, funcs=F, bounds='every input of %d bytes split after %d' % (n, s),
                        tier='quick' if n < 7 else 'thorough'))
        ch = (n + 2) // 3 * 4
        for s in range(0, ch + 1):
            qs.append(Q('rt_%d_%02d' % (n, s), 'h_b64.c', 'h_rt', ch + 3, defs=['N=%d' % n, 'SPLIT=%d' % s], funcs=F, bounds='every input of %d bytes, text split after %d' % (n, s),
                        tier='quick' if n in (1, 3, 4) else 'thorough'))
    for n in range(1, 7):
        for s in (0, n // 2):
            qs.append(Q('dec_any_%d_%d' % (n, s), 'h_b64.c', 'h_dec_any', n + 3, defs=['N=%d' % n, 'SPLIT=%d' % s], mem=True, funcs=F, bounds='every text of %d bytes' % n, tier='quick' if n <= 3 else 'thorough'))
    return qs


prop('L03', 'base64', l03())


def l05():
    F = ['heap_init', 'heap_add', 'heap_heapify', 'heap_push', 'heap_pop', 'heap_peek', 'heap_replace', 'heap_get', 'heap_clip', 'heap_reset', 'heap_size', 'heap_destroy', 'VECTOR_GENERATE']
    qs = [Q('get', 'h_heap.c', 'h_get', 8, mem=True, funcs=F, bounds='0..4 items, index 0..5')]
    OPN = 'push pop peek replace'.split()
    for n in range(0, 7):
        for seq in ('', '0', '00', '10', '3', '33', '030', '310', '0310', '1133'):
            sq = sum(int(c) * 4 ** i for i, c in enumerate(seq))
            quick = n + len(seq) <= 5
            qs.append(Q('ops_%d_%s' % (n, seq or 'none'), 'h_heap.c', 'h_ops', n + len(seq) + 3, defs=['OPS=%d' % len(seq), 'MAXN=%d' % n, 'SEQ=%d' % sq], mem=True, funcs=F,
                        bounds='heapify of %d items, then %s, then drain; all item values 0..7 (ties included)' % (n, ', '.join(OPN[int(c)] for c in seq) or 'nothing'), tier='quick' if quick else 'thorough'))
    return qs


prop('L05', 'heap', l05())


def l04():
    qs = []
    G = [('asm_crc', 'libmy/crc32c-sse42.c'), ('tables', 'libmy/crc32c-slicing.c')]
    qs.append(Q('tables', 'h_crc.c', 'h_tables', 12, defs=['TABLES'], mem=True, gens=G, funcs=['g_crc_slicing'], bounds='all 2048 table entries'))
    SF = ['my_crc32c_slicing']
    for n in (0, 3, 11):
        qs.append(Q('dispatch_%02d' % n, 'h_crc.c', 'h_dispatch', n + 10, defs=['N=%d' % n, 'SYM=%d' % (n // 2), 'NSYM=1'], mem=True, gens=G, funcs=['my_crc32c', 'my_crc32c_runtime_detection'], bounds='buffers of %d bytes, one free; with and without SSE4.2' % n))
    for n in list(range(0, 18)) + [24, 32]:
        for off in (0, 1, 2, 3):
            d = ['N=%d' % n, 'OFF=%d' % off]
            if n <= 5 and n != 3:
                qs.append(Q('slicing_%02d_%d' % (n, off), 'h_crc.c', 'h_slicing', n + 10, defs=d, mem=True, gens=G, funcs=SF, bounds='every buffer of %d bytes at alignment %d' % (n, off)))
            else:
                # the checksum is affine over GF(2): one free byte at every position, two in the thorough tier
                for sym in range(0, n):
                    if (off + sym) % 4 == n % 4 and n <= 24:
                        qs.append(Q('slicing1_%02d_%d_%02d' % (n, off, sym), 'h_crc.c', 'h_slicing', n + 10, defs=d + ['SYM=%d' % sym, 'NSYM=1'], mem=True, gens=G, funcs=SF,
                                    bounds='buffers of %d bytes at alignment %d; byte %d free, the others fixed' % (n, off, sym)))
                    if sym + 1 < n and (off + sym) % 4 == 0:
                        qs.append(Q('slicing2_%02d_%d_%02d' % (n, off, sym), 'h_crc.c', 'h_slicing', n + 10, defs=d + ['SYM=%d' % sym, 'NSYM=2'], mem=True, gens=G, tier='thorough', funcs=SF,
                                    bounds='buffers of %d bytes at alignment %d; bytes %d and %d free, the others fixed' % (n, off, sym, sym + 1)))
            if off in (0, 3):
                qs.append(Q('sse42_%02d_%d' % (n, off), 'h_crc.c', 'h_sse42', n + 10, defs=d, mem=True, gens=G, tier='quick' if off == n % 2 * 3 else 'thorough', funcs=['my_crc32c_sse42', 'my_asm_crc32_u64', 'my_asm_crc32_u32', 'my_asm_crc32_u16', 'my_asm_crc32_u8'],
                            bounds='every buffer of %d bytes' % n))
    return qs


prop('L04', 'crc32c', l04())


def l06():
    qs = []
    for impl in ('mb', 'mutex'):
        base = ['MUTEX'] if impl == 'mutex' else []
        G = [('preempt', 'libmy/my_queue_%s.c' % impl)]
        F = ['my_queue_%s_%s' % (impl, x) for x in ('init', 'insert', 'remove', 'destroy')]
        qs.append(Q(impl + '_init', 'h_queue.c', 'h_init', 42, defs=base + ['SEQ=0'], gens=G, funcs=F, mem=True, bounds='capacity 0..40'))
        for cap, ops, esz in ((2, 4, 2), (4, 6, 1)):
            for seq in range(1 << ops):
                nrem = bin(seq).count('1')
                quick = cap == 2 or (seq * 7 + ops) % 5 == 0
                for bud in (0, 2):
                    if bud == 0 and not (cap == 4 and nrem <= 3):
                        continue
                    qs.append(Q('%s_c%d_%s_b%d' % (impl, cap, ''.join('ir'[seq >> i & 1] for i in range(ops)), bud), 'h_queue.c', 'h_queue', 10,
                                defs=base + ['CAP=%d' % cap, 'OPS=%d' % ops, 'ESZ=%d' % esz, 'SEQ=%d' % seq, 'BUDGET=%d' % bud], gens=G, funcs=F, mem=True, tier='quick' if quick else 'thorough',
                                bounds='capacity %d, %d-byte elements, operations %s; up to %d operations of the other side at any statement of an operation' % (cap, esz, ''.join('ir'[seq >> i & 1] for i in range(ops)), bud)))
    return qs


prop('L06', 'queue', l06())


def l07():
    VF = ['VECTOR_GENERATE: init reinit detach destroy reserve add append extend reset clip bytes size value ptr data advance']
    OPN = 'add append3 write2 clip reset detach extend append0'.split()
    qs = []
    for a in range(8):
        for b in range(8):
            for c in range(8):
                for hint in (0, 1, 3):
                    k = a * 64 + b * 8 + c + hint
                    qs.append(Q('vec_h%d_%d%d%d' % (hint, a, b, c), 'h_vec.c', 'h_vec', 26, defs=['SEQ=%d' % (a + 8 * b + 64 * c), 'OPS=3', 'HINT=%d' % hint], mem=True, funcs=VF,
                                tier='quick' if (a * 3 + b * 5 + c + hint) % 29 == 0 or hint < 3 and (a, b, c) in ((1, 1, 1), (0, 5, 0), (1, 3, 1), (2, 2, 2), (1, 4, 1), (6, 6, 6), (5, 5, 1)) else 'thorough',
                                bounds='hint %d; %s with all element values' % (hint, ', '.join(OPN[x] for x in (a, b, c)))))
    qs.append(Q('reinit', 'h_vec.c', 'h_reinit', 8, defs=['HINT=0'], mem=True, funcs=VF, bounds='hint 0, three adds'))
    for n in (0, 1, 3):
        for m in (0, 1, 3):
            qs.append(Q('ubuf_%d%d' % (n, m), 'h_vec.c', 'h_ubuf', 12, unwindset=['ubuf_reserve.0:4'], defs=['OWN_REALLOC', 'N=%d' % n, 'M=%d' % m], mem=True, funcs=['ubuf_dup_cstr', 'ubuf_add_cstr', 'ubuf_cterm', 'ubuf_cstr', 'ubuf_rstrip'], bounds='strings of %d and %d characters' % (n, m)))
            for hint in (1, 4):
                qs.append(Q('fmt_%d%d%d' % (n, m, hint), 'h_vec.c', 'h_fmt', 12, unwindset=['ubuf_reserve.0:6'], defs=['N=%d' % n, 'M=%d' % m, 'HINT=%d' % hint], mem=True, funcs=['ubuf_add_fmt'], bounds='%d characters formatted after %d' % (n, m)))
    return qs


prop('L07', 'vectors and byte buffers', l07())
prop('L08', 'hex decoding', [Q('hex_%d' % n, 'h_misc.c', 'h_hex', n + 3, defs=['N=%d' % n], mem=True, funcs=['hex_decode', 'hex_to_int'], bounds='every string of %d characters' % n) for n in range(0, 9)])
prop('L09', 'string replacement', [Q('rep_%d%d%d' % (n, o, r), 'h_misc.c', 'h_replace', n * max(r, 1) + 4, defs=['N=%d' % n, 'O=%d' % o, 'R=%d' % r], mem=True, funcs=['string_replace'],
                                     tier='quick' if n <= 3 or (n == 4 and o == 2) else 'thorough',
                                     bounds='every text of %d, pattern of %d and replacement of %d characters' % (n, o, r)) for n in range(0, 6) for o in (1, 2, 3) for r in (0, 1, 2)],
     outside='an empty pattern (no meaning; excluded)')
prop('L10', 'time arithmetic', [
    Q('arith', 'h_misc.c', 'h_time', 4, arith=True, funcs=['my_timespec_add', 'my_timespec_sub', 'my_timespec_cmp'], bounds='seconds up to 2^40, all normalised nanoseconds'),
    Q('carry', 'h_misc.c', 'h_time_carry', 7, arith=True, funcs=['my_timespec_add'], bounds='nanoseconds up to 4e9'),
    Q('from_double', 'h_misc.c', 'h_time_double', 4, funcs=['my_timespec_from_double'], bounds='seconds up to 2^33 in eighths'),
    Q('to_double', 'h_misc.c', 'h_time_to_double', 4, funcs=['my_timespec_to_double'], bounds='seconds up to 2^33 in eighths'),
])


def l11():
    F = ['my_rate_init', 'my_rate_sleep', 'my_rate_destroy', 'calc_next_tick', 'adjust_rate', 'my_timespec_sub', 'my_timespec_from_double']
    qs = []
    for rate in (1, 2, 3, 7, 10, 1000, 1500, 1000000):
        for calls in (1, 2, 3):
            qs.append(Q('rate%d_%d' % (rate, calls), 'h_rate.c', 'h_rate', 6, defs=['RATE=%d' % rate, 'CALLS=%d' % calls], funcs=F, tier='quick' if calls < 3 and rate != 1500 or rate < 10 else 'thorough', bounds='rate %d per second, %d calls, any clock advance of under two seconds between calls and any wake-up time' % (rate, calls)))
        qs.append(Q('late%d' % rate, 'h_rate.c', 'h_late', 6, defs=['RATE=%d' % rate], funcs=F, bounds='rate %d' % rate))
    for rate in (1, 2, 10, 1000):
        for freq, calls in ((1, 2), (1, 3), (2, 5)):
            qs.append(Q('adj%d_%d_%d' % (rate, freq, calls), 'h_rate.c', 'h_rate', 6, defs=['RATE=%d' % rate, 'CALLS=%d' % calls, 'FREQ=%d' % freq], funcs=F, timeout=900, weight=9, tier='quick' if (rate, freq) in ((1, 2), (10, 1), (1000, 1)) and calls != 3 else 'thorough', bounds='rate %d per second adjusted every %d calls, %d calls' % (rate, freq, calls)))
    return qs


prop('L11', 'rate limiter', l11(), outside='rates above 1e6 and longer histories; the average rate over many calls')


def l12():
    OPN = 'prepend append before after unlink dequeue other appendlist'.split()
    qs = []
    for pre, pre2 in ((0, 0), (1, 0), (2, 0), (3, 1), (2, 2), (0, 2)):
        for a in range(8):
            for b in [None] + list(range(8)):
                seq = (a,) if b is None else (a, b)
                quick = b is None or (a not in (2, 3, 4) and pre < 3 and (a + 3 * b + pre) % 4 == 0)
                qs.append(Q('ops_%d%d_%s' % (pre, pre2, ''.join(map(str, seq))), 'h_list.c', 'h_list', 9, defs=['PRE=%d' % pre, 'PRE2=%d' % pre2, 'OPS=%d' % len(seq), 'SEQ=%d' % sum(x * 8 ** i for i, x in enumerate(seq))], mem=True,
                            funcs=['ISC_LIST_PREPEND', 'ISC_LIST_APPEND', 'ISC_LIST_INSERTBEFORE', 'ISC_LIST_INSERTAFTER', 'ISC_LIST_UNLINK', 'ISC_LIST_DEQUEUE', 'ISC_LIST_APPENDLIST'],
                            tier='quick' if quick else 'thorough', bounds='lists of %d and %d; then ' % (pre, pre2) + ', '.join(OPN[x] for x in seq) + ' at every position'))
    return qs


prop('L12', 'linked lists', l12())


def l14():
    qs = []
    for n in list(range(0, 14)) + [15, 18, 23, 24, 25]:
        for off in (0, 1, 2):
            for e, f in (('little', 'my_hashlittle'), ('little2', 'my_hashlittle2'), ('big', 'my_hashbig')):
                if e == 'big' and off == 2:
                    continue
                quick = n <= 13 and (off == 0 or n % 4 != 0 or n == 12) or n in (18, 25)
                full = off == 0 and e != 'big' or n <= 1
                if full:
                    qs.append(Q('%s_%02d_%d' % (e, n, off), 'h_hash.c', 'h_' + e, max(n, 24) + 14, defs=['N=%d' % n, 'OFF=%d' % off], funcs=[f], timeout=100, tier='quick' if quick else 'thorough', bounds='every key of %d bytes at alignment %d, fixed seed' % (n, off)))
                for s in range(0, n):
                    if (s + off + (0 if e == 'little' else 1)) % 3 == 0 or s == n - 1:
                        qs.append(Q('%s_%02d_%d_s%02d' % (e, n, off, s), 'h_hash.c', 'h_' + e, max(n, 24) + 14, defs=['N=%d' % n, 'OFF=%d' % off, 'SYM=%d' % s, 'NSYM=1'], funcs=[f], timeout=100,
                                    tier='quick' if quick and not full and (s == n - 1 or n in (12, 18)) else 'thorough', bounds='keys of %d bytes at alignment %d, byte %d free, %s seed' % (n, off, s, 'every' if n <= 1 else 'fixed')))
        if n % 4 == 0:
            qs.append(Q('word_%02d' % n, 'h_hash.c', 'h_word', 40, defs=['N=%d' % n], funcs=['my_hashword', 'my_hashword2'], timeout=100, bounds='every key of %d words, every seed' % (n // 4)))
    return qs


prop('L14', 'hashing', l14())

prop('L15', 'number formatting',
     [Q('u64_%02d' % d, 'h_misc2.c', 'h_u64', 24, defs=['D=%d' % d, 'VMAX=%d' % m], mem=True, funcs=['my_uint64_to_str'], bounds='every value to %d into %d bytes' % (m, d), timeout=700) for d, m in ((2, 255), (3, 999), (4, 9999), (5, 9999), (6, 65535), (8, 65535))] +
     [Q('u64t_%02d' % d, 'h_misc2.c', 'h_u64', 24, defs=['D=%d' % d, 'VMAX=%d' % m], mem=True, funcs=['my_uint64_to_str'], bounds='every value to %d into %d bytes' % (m, d), timeout=1500, tier='thorough') for d, m in ((4, 2 ** 24), (8, 2 ** 24), (12, 2 ** 32), (21, 2 ** 32))] +
     [Q('u64_%s' % nm, 'h_misc2.c', 'h_u64', 26, defs=['D=%d' % d, 'VMAX=255', 'VBASE=%dULL' % b], mem=True, funcs=['my_uint64_to_str'], bounds='values %d to %d into %d bytes' % (b, b + 255, d)) for nm, b, d in
      (('max', 2 ** 64 - 256, 21), ('max24', 2 ** 64 - 256, 24), ('maxtight', 2 ** 64 - 256, 12), ('1e19', 10 ** 19 - 128, 21), ('2_32', 2 ** 32 - 128, 12), ('1e10', 10 ** 10 - 100, 21))] +
     [Q('hex_%d_%02d' % (n, d), 'h_misc2.c', 'h_hexs', 24, defs=['N=%d' % n, 'D=%d' % d], mem=True, funcs=['my_bytes_to_hex_str'], bounds='every %d bytes into %d' % (n, d)) for n in (1, 2, 4, 6) for d in (1, 2, 3, 8, 9, 13, 14)] +
     [Q('hex16', 'h_misc2.c', 'h_hex16', 24, mem=True, funcs=['my_uint16_to_hex_str'], bounds='all 16-bit values')],
     outside='a destination of zero bytes, or of one byte for decimal numbers')
prop('L18', 'bounded reads', [Q('read_%d' % n, 'h_misc2.c', 'h_read', n + 3, defs=['N=%d' % n], mem=True, funcs=['read_bytes'],
                                bounds='%d bytes; at most %d read calls, each short, interrupted, failing or at end of file' % (n, n + 3)) for n in (1, 2, 3, 4, 5)])
prop('L20', 'printing strings', [Q('print_%d' % n, 'h_misc2.c', 'h_print', 40, defs=['N=%d' % n], mem=True, funcs=['print_string'], bounds='every string of %d bytes' % n) for n in (1, 2, 3, 4)])
prop('L21', 'atomics', [Q('int', 'h_misc2.c', 'h_atomic', 3, defs=['ATOMICS'], funcs=['atomic_*'], bounds='all operands below 2^30'), Q('int64', 'h_misc2.c', 'h_atomic64', 3, defs=['ATOMICS'], funcs=['atomic64_*'], bounds='all operands below 2^62'),
                        Q('ptr', 'h_misc2.c', 'h_atomic_ptr', 3, defs=['ATOMICS'], funcs=['atomic_ptr_get', 'atomic_ptr_set'], bounds='four pointers')],
     outside='contention between threads (the helpers are single compiler built-ins)')
prop('L22', 'integer from the environment', [Q('env_%d' % n, 'h_misc2.c', 'h_env', n + 4, defs=['N=%d' % n], mem=True, funcs=['getenv_int'], bounds='every value of %d characters without blanks or signs' % n) for n in range(0, 6)] +
     [Q('unset', 'h_misc2.c', 'h_env_unset', 8, funcs=['getenv_int']), Q('big', 'h_misc2.c', 'h_env_big', 24, funcs=['getenv_int'], bounds='twenty digits')])

GM = [('scale', 'dnstable/dnstable-private.h'), ('scale', 'dnstable/merge.c')]
GU = [('scale', 'dnstable/dnstable-private.h'), ('scale', 'dnstable/entry.c'), ('scale', 'dnstable/merge.c')]
MS = ['--sat-solver', 'minisat2']


def d04():
    F = ['dnstable_merge_func', 'triplet_unpack', 'triplet_pack', 'pair_unpack', 'pair_pack']
    qs = []
    for kt in (0, 2):
        for la, lb, lc in ((1, 1, 1), (2, 3, 1), (5, 4, 9), (10, 9, 10), (10, 10, 10), (6, 7, 8)):
            qs.append(Q('triplets%d_%d%d%d' % (kt, la, lb, lc), 'h_merge.c', 'h_triplets', 34, defs=['KT=%d' % kt, 'LA=%d' % la, 'LB=%d' % lb, 'LC=%d' % lc, 'VH_MCAP=32', 'VH_SCALE=40'],
                        flags=MS, gens=GM, funcs=F, tier='quick' if kt == 0 or la == 1 else 'thorough', bounds='two values of entry type %d, integers with encoded lengths %d,%d,%d in both orders; count sum below 2^64' % (kt, la, lb, lc)))
    qs.append(Q('assoc', 'h_merge.c', 'h_assoc', 34, defs=['VH_MCAP=32', 'VH_SCALE=40'], flags=MS, gens=GM, funcs=F, bounds='three values of one-byte integers'))
    for la, lb, lc in ((1, 1, 1), (1, 2, 3), (5, 5, 10), (10, 10, 10), (9, 4, 6)):
        qs.append(Q('ranges_%d%d%d' % (la, lb, lc), 'h_merge.c', 'h_time_ranges', 34, defs=['LA=%d' % la, 'LB=%d' % lb, 'LC=%d' % lc, 'VH_MCAP=32', 'VH_SCALE=40'], flags=MS, gens=GM, funcs=F,
                    bounds='two time ranges with encoded lengths %d,%d and %d,%d' % (la, lb, lc, la)))
    for la in (1, 2, 3, 4, 5):
        qs.append(Q('versions_%d' % la, 'h_merge.c', 'h_versions', 34, defs=['LA=%d' % la, 'LB=%d' % (6 - la), 'VH_MCAP=32', 'VH_SCALE=40'], flags=MS, gens=GM, funcs=F, bounds='versions with encoded lengths %d and %d, present or absent, every version type' % (la, 6 - la)))
    qs.append(Q('other', 'h_merge.c', 'h_other', 34, defs=['VH_MCAP=32', 'VH_SCALE=40'], flags=MS, gens=GM, funcs=['dnstable_merge_func'], bounds='keys of up to 3 bytes of any other type, values of up to 3 bytes'))
    return qs


prop('D04', 'merging entries', d04(), outside='malformed stored values; counts whose sum exceeds 64 bits')


def d05():
    F = ['dnstable_merge_func', 'merge_rrtype_bitmaps', 'rrtype_union_unpack']
    qs = []
    U = ['memset.0:34', 'memcpy.0:14']

    def u(fa, fb, lo, hi, mask, scale, unwind, tier, weight=1, w=None):
        qs.append(Q('union_%d_%d_%d_%d_%x' % (fa, fb, lo, hi, mask), 'h_merge.c', 'h_union', unwind,
                    defs=['UNIONS', 'FA=%d' % fa, 'FB=%d' % fb, 'LO=%d' % lo, 'HI=%d' % hi, 'MASK=%d' % mask, 'VH_SCALE=%d' % scale, 'VH_MCAP=%d' % (40 if hi > 200 else 24)],
                    unwindset=['memset.0:%d' % 34, 'memcpy.0:%d' % (36 if hi > 200 else 14)], flags=MS, gens=GU, funcs=F, tier=tier, weight=weight, timeout=700,
                    bounds='set forms %d and %d (1: one type below 256; 2: one type; 10: a one-byte bitmap; 20: two bytes; 110: two blocks), low bytes %d..%d, bitmap bits within %#x' % (fa, fb, lo, hi, mask)))
    for fa, fb in ((0, 1), (1, 0), (0, 10), (2, 0), (0, 0)):
        u(fa, fb, 0, 31, 0xff, 40, 10, 'quick')
    u(1, 1, 0, 31, 0xff, 40, 9, 'quick')
    u(1, 1, 0, 255, 0xff, 40, 36, 'quick', 5)
    u(1, 2, 0, 31, 0xff, 40, 9, 'quick', 2)
    u(2, 2, 0, 31, 0xff, 40, 9, 'quick', 2)
    u(2, 2, 0, 255, 0xff, 40, 36, 'thorough', 9)
    u(2, 1, 200, 255, 0xff, 40, 36, 'thorough', 9)
    u(10, 1, 0, 31, 0xff, 40, 10, 'quick', 4)
    u(10, 2, 0, 31, 0xff, 40, 10, 'thorough', 4)
    u(10, 10, 0, 31, 0x91, 40, 9, 'quick', 4)
    u(10, 10, 0, 31, 0x66, 40, 10, 'thorough', 6)
    u(20, 10, 0, 31, 0x81, 40, 9, 'quick', 4)
    u(20, 20, 0, 31, 0x81, 40, 9, 'thorough', 6)
    u(110, 2, 0, 31, 0x81, 24, 9, 'quick', 4)
    u(110, 10, 0, 31, 0x81, 24, 9, 'thorough', 8)
    u(110, 110, 0, 31, 0x81, 24, 9, 'thorough', 9)
    qs.append(Q('wide', 'h_merge.c', 'h_union_wide', 1060, defs=['VH_SCALE=1100', 'VH_MCAP=1100', 'W=31'], flags=['--max-field-sensitivity-array-size', '64'], gens=GM, funcs=['dnstable_merge_func', 'merge_rrtype_bitmaps'],
                bounds='a set with full-length blocks in 31 windows (1054 bytes); rrtype_union_unpack stubbed'))
    qs.append(Q('any_31', 'h_merge.c', 'h_union_any', 10, mem=True, defs=['UNIONS', 'N0=3', 'N1=1', 'MASK=129', 'VH_SCALE=40', 'VH_MCAP=24'], unwindset=['memset.0:34', 'memcpy.0:14'], flags=MS, gens=GU, funcs=F, tier='thorough', timeout=900, weight=9,
                bounds='arbitrary sets of 3 and 1 bytes'))
    return qs


prop('D05', 'record-type sets', d05(), outside='more than two window blocks with arbitrary contents; sets of all 65536 types (documented limit); on the symbolic side arrays sized for all types are cut to a few dozen elements')


def d06():
    F = ['rrtype_union_unpack', 'rrtype_union_check', 'rrtype_test']
    G = [('scale', 'dnstable/dnstable-private.h'), ('scale', 'dnstable/entry.c')]
    qs = []
    for n in (0, 1, 2):
        qs.append(Q('bytes%d' % n, 'h_set.c', 'h_set', 10, mem=True, defs=['N=%d' % n], flags=MS, gens=G, funcs=F, bounds='every set of %d bytes, every type, both entry types' % n))

    def shapes(rem):
        if rem < 2:
            return [()]
        out = [(rem - 1,), (255,)]
        for ln in range(0, rem - 1):
            out += [(ln,) + r for r in shapes(rem - 2 - ln)]
        return out

    def wellformed(sh, n):
        return sum(sh) + 2 * len(sh) == n and 0 not in sh
    for n in (3, 4, 5, 6, 7, 8):
        for sh in shapes(n):
            ok = wellformed(sh, n)
            bits = 8 * sum(x for x in sh if x < 32)
            qs.append(Q('bytes%d_%s' % (n, '_'.join(map(str, sh))), 'h_set.c', 'h_set', 10, mem=True,
                        defs=['N=%d' % n, 'SHAPE=' + ','.join(map(str, sh)), 'VH_SCALE=%d' % min(48, bits + 2)] + ([] if ok else ['NOGOOD']) + (['SOMEBAD'] if not ok or len(sh) > 1 else []) + (['MASK=153'] if bits >= 24 else []),
                        unwindset=['h_set.%d:52' % i for i in range(4)], flags=MS, gens=G, funcs=F,
                        tier='quick' if n < 7 else 'thorough', timeout=800, weight=n, bounds='every set of %d bytes with block lengths %s, every type, both entry types' % (n, sh)))
    for ln in (31, 32, 33, 34):
        qs.append(Q('block%d' % ln, 'h_set.c', 'h_set', max(ln, 48) + 4, mem=True, defs=['N=%d' % (ln + 2), 'LONG=%d' % ln, 'MASK=129'] + (['NOGOOD', 'SOMEBAD'] if ln > 32 else []), flags=MS, gens=G, funcs=F, bounds='one block of length %d in any window, bits in its first and last byte' % ln, weight=3))
    return qs


prop('D06', 'reading record-type sets', d06(), outside='sets of all 65536 types (documented limit)')



def d13():
    qs = []
    F = {'ljoin': ['ljoin_mtbl_init', 'ljoin_iter_next', 'ljoin_iter_seek', 'ljoin_mtbl_destroy'], 'remove': ['remove_mtbl_*', 'remove_iter_next', 'remove_iter_seek', 'match_key'],
         'filter': ['filter_mtbl_init', 'filter_iter_next', 'filter_iter_seek', 'filter_mtbl_destroy']}
    KN = {0: 'whole table', 1: 'single key', 2: 'prefix', 3: 'range'}
    for c in ('ljoin', 'filter', 'remove'):
        for kind, kl in ((0, 1), (1, 1), (2, 2), (3, 1)):
            for ops in (2, 3, 4):
                for seq in range(2 ** ops):
                    if seq >> (ops - 1) & 1 or kind == 1 and ops > 2:
                        continue  # ends with a read
                    quick = ops == 2 or (ops == 3 and seq in (0, 2)) or (ops == 4 and seq == 5 and kind == 0 and c == 'filter')
                    if c == 'remove' and kind != 0:
                        quick = ops == 2 and seq == 1 and kind in (2, 3)
                    qs.append(Q('%s_k%d_%d_%x' % (c, kind, ops, seq), 'h_comb.c', 'h_' + c, 4, defs=['KIND=%d' % kind, 'KL=%d' % kl, 'OPS=%d' % ops, 'SEQ=%d' % seq, 'VH_TABN=2'], flags=MS, funcs=F[c],
                                tier='quick' if quick else 'thorough', timeout=400, weight=5 if c == 'remove' else 2, bounds='tables of 2 and 2 entries with %d-byte keys, iteration over a %s; operations %s' % (kl, KN[kind], ''.join('S' if seq >> i & 1 else 'N' for i in range(ops)))))
    for c, nl, nr in (('ljoin', 3, 2), ('ljoin', 2, 3), ('ljoin', 3, 0), ('ljoin', 1, 3), ('remove', 3, 1), ('remove', 1, 3), ('remove', 3, 0)):
        qs.append(Q('%s_n%d%d' % (c, nl, nr), 'h_comb.c', 'h_' + c, 5, defs=['NL=%d' % nl, 'NR=%d' % nr, 'OPS=%d' % (nl + 1), 'VH_TABN=3'], flags=MS, funcs=F[c], bounds='tables of %d and %d entries read to the end' % (nl, nr)))
    for c, nl, nr, ops, seq in (('ljoin', 2, 1, 4, 4), ('ljoin', 1, 2, 3, 2), ('remove', 2, 1, 3, 2), ('filter', 2, 0, 4, 4)):
        qs.append(Q('%s_s%d%d_%d_%x' % (c, nl, nr, ops, seq), 'h_comb.c', 'h_' + c, 4, defs=['NL=%d' % nl, 'NR=%d' % nr, 'OPS=%d' % ops, 'SEQ=%d' % seq, 'VH_TABN=2'], flags=MS, funcs=F[c], timeout=300, bounds='tables of %d and %d entries; operations %s' % (nl, nr, ''.join('S' if seq >> i & 1 else 'N' for i in range(ops)))))
    qs.append(Q('remove_two', 'h_comb.c', 'h_remove', 4, defs=['NL=2', 'NR=1', 'NR2=1', 'OPS=3', 'VH_TABN=2'], flags=MS, funcs=F['remove'], tier='thorough', timeout=900, bounds='two removed tables of one entry'))
    qs.append(Q('remove_two_s', 'h_comb.c', 'h_remove', 4, defs=['NL=2', 'NR=1', 'NR2=1', 'OPS=3', 'SEQ=2', 'VH_TABN=2'], flags=MS, funcs=F['remove'], tier='thorough', timeout=900, bounds='two removed tables of one entry, a seek between reads'))
    return qs


prop('D13', 'combinators', d13(), outside='seeking to before the start of a prefix, range or single-key iteration; tables of more than three entries')


# ---- queries ----
QF = {'set': ['dnstable_query_init', 'dnstable_query_set_data', 'query_load_name', 'dnstable_query_set_rrtype', 'dnstable_query_set_bailiwick', 'dnstable_query_set_filter_parameter'],
      'rrset': ['dnstable_query_iter', 'dnstable_query_iter_common', 'query_init_rrset', 'query_init_rrset_left_wildcard', 'query_init_rrset_right_wildcard', 'is_left_wildcard', 'is_right_wildcard', 'query_iter_next', 'query_iter_next_name_indirect', 'query_iter_free', 'filter_iter_next', 'dnstable_iter_next'],
      'rdata': ['dnstable_query_iter', 'dnstable_query_iter_common', 'query_init_rdata_name', 'query_init_rdata_left_wildcard', 'query_init_rdata_right_wildcard', 'filter_rrtype_rdata_name', 'query_iter_next', 'query_iter_next_name_indirect', 'query_iter_free', 'filter_iter_next', 'dnstable_iter_next']}
WCN = ('%s', '*.%s', '+.%s', '%s.*', '%s.+')


def qq(name, entry, wc=0, q=(), es=((),), b=(), defs=(), funcs=(), some=False, **kw):
    """one whole query: shapes are tuples of label lengths"""
    def cs(t):
        return ','.join(map(str, t))

    def fits(e):
        if wc == 0:
            return e == q
        if wc in (2, 4) and len(e) != len(q) + 1 or len(e) < len(q):
            return False
        return (e[len(e) - len(q):] if wc <= 2 else e[:len(q)]) == q
    err = 'VH_ERRORS' in defs
    d = ['WC=%d' % wc, 'QN=' + cs(q), 'BN=' + cs(b), 'NENT=%d' % len(es), 'VH_SCN=%d' % max(2, len(es))] + ([] if err else ['VH_NO_ERRORS']) + ['E%d=%s' % (i, cs(e)) for i, e in enumerate(es)] + list(defs)
    for k, v in (('VH_UCAP', 36), ('VH_KEYCAP', 36), ('KCAP', 32), ('NCAP', 16)):
        if not any(x.startswith(k) for x in d):
            d.append('%s=%d' % (k, v))
    if not fits(es[-1]):
        d.append('NOMATCH')
    elif not any(q) and not some:
        d.append('ALLMATCH')
    kw.setdefault('bounds', 'query %s with label lengths %s, stored names with label lengths %s; options %s' % (WCN[wc] % 'name', list(q), [list(e) for e in es], ' '.join(defs) or 'none'))
    return Q(name, 'h_query.c', entry, kw.pop('unwind', 26), defs=d, flags=MS, funcs=list(funcs) + QF['set'], timeout=kw.pop('timeout', 250), **kw)


def shapes(nl, lens):
    import itertools
    return [s for n in range(nl + 1) for s in itertools.product(lens, repeat=n)]


def d11():
    qs = []
    quick = {(0, (), ()), (0, (1,), (1,)), (0, (2,), (2,)), (0, (1, 2), (1, 2)), (0, (2, 1), (2, 1)), (0, (2,), (1, 2)), (0, (3,), (1, 1)), (0, (1, 1, 1), (1, 1, 1)),
             (1, (), ()), (1, (), (1, 2)), (1, (2,), (2,)), (1, (2,), (1, 2)), (1, (1, 2), (2, 1, 2)), (1, (2,), (2, 1)), (1, (1,), (1, 1, 1)),
             (3, (2,), (2,)), (3, (2,), (2, 1)), (3, (2, 1), (2, 1, 2)), (3, (2,), (1, 2)), (3, (1, 2), (1, 2, 1)), (3, (3,), (3, 1, 1))}
    allq = set(quick)
    for wc in (0, 1, 3):
        for a in shapes(2, (1, 2)):
            if wc == 3 and not a:
                continue    # "*." is taken as a left-hand wildcard
            for e in shapes(3, (1, 2)):
                if abs(len(a) - len(e)) <= 1:
                    allq.add((wc, a, e))
    for kind, entry in (('rrset', 'h_rrset'), ('rdata', 'h_rdata_name')):
        for wc, a, e in sorted(allq):
            nm = '%s_w%d_%s_%s' % (kind, wc, ''.join(map(str, a)) or '0', ''.join(map(str, e)) or '0')
            qs.append(qq(nm, entry, wc, a, (e,), funcs=QF[kind], some=kind == 'rdata', tier='quick' if (wc, a, e) in quick else 'thorough'))
    for wc, a, e in ((0, (2,), (2,)), (1, (2,), (1, 2)), (3, (2,), (2, 1))):
        for rtl, qrt in ((1, 1), (2, 2), (1, 2), (2, 1)):
            d = ['RT=1', 'RTL=%d' % rtl, 'QRT=%d' % qrt] + (['NOMATCH'] if rtl != qrt else [])
            qs.append(qq('rrset_type_w%d_%d%d' % (wc, rtl, qrt), 'h_rrset', wc, a, (e,), defs=d, funcs=QF['rrset'], tier='quick' if rtl == qrt else 'thorough'))
        for x in (0, 1, 3):
            for t in (0, 1):
                qs.append(qq('rdata_w%d_x%d_t%d' % (wc, x, t), 'h_rdata_name', wc, a, (e,), defs=['RT=%d' % t, 'EXTRA=%d' % x], some=True, funcs=QF['rdata'], tier='quick' if t else 'thorough'))
    for a, e in (((2,), (1, 2)), ((1, 2), (1, 2))):
        qs.append(qq('rdata_left_noindex_%d' % len(a), 'h_rdata_name', 1, a, (e,), defs=['RT=1', 'IVN=0'], some=True, funcs=QF['rdata']))
    for s in (1, 4):
        qs.append(qq('rdata_slice%d' % s, 'h_rdata_name', 0, (2,), ((2,),), defs=['RT=1', 'SLICE=%d' % s], funcs=QF['rdata']))
    for n in range(1, 5):
        for r in range(n - 1, n + 2):
            for t in (0, 1):
                qs.append(qq('raw%d_%d_t%d' % (n, r, t), 'h_raw', defs=['RAWN=%d' % n, 'RD0=%d' % r, 'RT=%d' % t], funcs=['dnstable_query_set_data', 'hex_decode', 'query_init_rdata_raw'], tier='quick' if n in (2, 3) and r in (n, n + 1) else 'thorough',
                             bounds='raw data of %d bytes, stored data of %d bytes' % (n, r)))
    for t, nm in ((253, 'SOURCE_INFO'), (254, 'TIME_RANGE'), (255, 'VERSION')):
        qs.append(qq('all_%s' % nm.lower(), 'h_types', defs=['TYPE=%d' % t, 'QTYPE=DNSTABLE_QUERY_TYPE_' + nm], some=True, funcs=['query_init_' + nm.lower()], bounds='keys of up to three bytes'))
    for v in range(4):
        qs.append(qq('version_of_%d' % v, 'h_types', defs=['VTYPE=%d' % v], some=True, funcs=['query_init_version', 'query_set_version_type', 'dnstable_entry_type_from_string'], bounds='keys of up to three bytes'))
    return qs


prop('D11', 'scan ranges', d11(), outside='names of more than three labels or labels of more than three bytes; a one-byte label that is itself * or + at an end of an exact query')


def d08():
    qs = []
    one = {(2, (2,), (1, 2)), (2, (2,), (2,)), (2, (2,), (1, 1, 2)), (2, (), (2,)), (2, (1, 2), (3, 1, 2)), (2, (2,), (2, 1)),
           (4, (2,), (2, 1)), (4, (2,), (2,)), (4, (2,), (2, 1, 1)), (4, (2, 1), (2, 1, 3)), (4, (2,), (1, 2))}
    for wc, a, e in one:
        for kind, entry in (('rrset', 'h_rrset'), ('rdata', 'h_rdata_name')):
            qs.append(qq('%s_w%d_%s_%s' % (kind, wc, ''.join(map(str, a)) or '0', ''.join(map(str, e))), entry, wc, a, (e,), funcs=QF[kind] + ['filter_single_label'], some=kind == 'rdata'))
    # a name that does not match is passed over, by a jump, before one that may
    two = {(2, (2,), ((1, 1, 2), (1, 2))), (2, (2,), ((1, 1, 2), (2, 2))), (2, (2,), ((2, 1, 2), (1, 2))), (2, (2,), ((2,), (1, 2))), (2, (2,), ((1, 2, 2), (2, 2))), (2, (1,), ((2, 2, 1), (3, 1))),
           (4, (2,), ((2, 1, 1), (2, 1))), (4, (2,), ((2, 1, 1), (2, 2))), (4, (2,), ((2, 1, 2), (2, 1))), (4, (2,), ((2,), (2, 1))), (4, (2,), ((2, 2, 1), (2, 2)))}
    thr = set()
    for a in ((1,), (2,), (1, 2)):
        for l1 in (1, 2, 3):
            for l0 in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 1, 1), ()):
                thr.add((2, a, (l0 + a, (l1,) + a)))
                thr.add((4, a, (a + l0, a + (l1,))))
    for wc, a, es in sorted(two | thr):
        for kind, entry in (('rrset', 'h_rrset'), ('rdata', 'h_rdata_name')):
            d = ['ET=2'] if kind == 'rdata' and wc == 4 else []
            qs.append(qq('%s_skip_w%d_%s_%s' % (kind, wc, ''.join(map(str, a)), '_'.join(''.join(map(str, e)) for e in es)), entry, wc, a, es, defs=d, funcs=QF[kind] + ['filter_single_label', 'increment_key'], some=kind == 'rdata',
                         tier='quick' if (wc, a, es) in two else 'thorough'))
    # two in a row, so that the jump of the second follows the jump of the first
    for wc, a, es in ((2, (2,), ((1, 1, 2), (2, 1, 2), (2, 2))), (2, (2,), ((2,), (1, 1, 2), (1, 2))), (4, (2,), ((2, 1, 1), (2, 1, 2), (2, 2))), (4, (2,), ((2,), (2, 1, 1), (2, 1)))):
        for kind, entry in (('rrset', 'h_rrset'), ('rdata', 'h_rdata_name')):
            d = ['ET=2'] if kind == 'rdata' and wc == 4 else []
            qs.append(qq('%s_skip3_w%d_%s' % (kind, wc, '_'.join(''.join(map(str, e)) for e in es)), entry, wc, a, es, defs=d, funcs=QF[kind] + ['filter_single_label', 'increment_key'], some=kind == 'rdata'))
    # with a type filter below or above the wildcard
    for et, wt in ((2, 2), (2, 5), (16, 2), (6, 6)):
        qs.append(qq('rdata_skip_type_%d_%d' % (et, wt), 'h_rdata_name', 4, (2,), ((2, 1, 1), (2, 2)), defs=['ET=%d' % et, 'WT=%d' % wt, 'RT=1'], funcs=QF['rdata'] + ['filter_single_label', 'filter_rrtype'], some=True))
        qs.append(qq('rrset_skip_type_%d_%d' % (et, wt), 'h_rrset', 2, (2,), ((1, 1, 2), (2, 2)), defs=['ET=%d' % et, 'WT=%d' % wt, 'RT=1'], funcs=QF['rrset'] + ['filter_single_label', 'filter_rrtype'], some=True))
    qs.append(qq('rdata_skip_other', 'h_rdata_name', 4, (2,), ((2, 1, 1), (2, 2)), defs=['ET=16'], funcs=QF['rdata'] + ['filter_single_label', 'filter_rrtype_rdata_name'], some=True))
    return qs


prop('D08', 'single-label wildcards', d08(), outside='names of more than four labels or labels of more than three bytes; a non-matching name is followed by at most one more before the candidate')


def d07():
    qs = []
    W = {0: ((2,), (2,)), 1: ((2,), (1, 2)), 2: ((2,), (1, 2)), 3: ((2,), (2, 1)), 4: ((2,), (2, 1))}
    for wc in range(5):
        a, e = W[wc]
        for nm, d in (('type', ['RT=1']), ('type2', ['RT=1', 'RTL=2', 'QRT=2']), ('bail', ['BW=1']), ('times', ['TF=15']), ('before_after', ['TF=6']), ('first', ['TF=3']), ('all', ['RT=1', 'BW=1', 'TF=15'])):
            qs.append(qq('rrset_w%d_%s' % (wc, nm), 'h_rrset', wc, a, (e,), b=(2,) if 'BW=1' in d else (), defs=d, some=True, funcs=QF['rrset'] + ['filter_rrtype', 'filter_bailiwick', 'filter_time_common', 'filter_time', 'filter_time_prefilter'],
                         tier='quick' if nm != 'all' and (wc in (0, 1) or nm in ('type', 'bail')) else 'thorough', timeout=600))
            if nm != 'bail' and nm != 'all':
                qs.append(qq('rdata_w%d_%s' % (wc, nm), 'h_rdata_name', wc, a, (e,), defs=d + (['NOMATCH'] if nm == 'type2' else []), some=True, funcs=QF['rdata'] + ['filter_rrtype', 'filter_time_common', 'filter_time', 'filter_time_prefilter'],
                             tier='quick' if nm in ('type', 'times') and wc in (0, 1, 3) else 'thorough', timeout=600))
    for b in ((), (1,), (1, 1)):
        qs.append(qq('rrset_bail%d' % len(b), 'h_rrset', 0, (2,), ((2,),), b=b, defs=['BW=1', 'RTL=2'], some=True, funcs=QF['rrset'] + ['filter_bailiwick']))
        qs.append(qq('rrset_bail%d_type' % len(b), 'h_rrset', 0, (2,), ((2,),), b=b, defs=['BW=1', 'RT=1'], some=True, funcs=QF['rrset'] + ['filter_bailiwick']))
    qs.append(qq('entry_rrset', 'h_filter', 0, (1,), ((1, 1),), b=(2,), defs=['VH_DECODE', 'BW=1', 'RT=1', 'TF=15'], funcs=['dnstable_query_filter', 'dnstable_entry_decode', 'dnstable_entry_get_*'], bounds='one decoded rrset, all filters'))
    for t in (0, 1):
        qs.append(qq('entry_rdata%d' % t, 'h_filter', 0, (1,), ((1, 1),), defs=['VH_DECODE', 'RDATA', 'RT=%d' % t, 'TF=%d' % (15 * t)], funcs=['dnstable_query_filter', 'dnstable_entry_decode', 'dnstable_entry_get_*'], bounds='one decoded rdata entry'))
    # memory safety on any stored bytes
    F = ['filter_single_label', 'filter_rrtype', 'filter_bailiwick', 'filter_rrtype_rdata_name', 'filter_time_common', 'filter_rrtype_ip', 'query_iter_next_name_indirect']
    for k in range(2, 9):
        for nm, wc, a, d, kmin, kmax, kq in (('single', 2, (1,), [], 3, 8, (4, 6)), ('rsingle', 4, (1,), ['INDEX=1'], 3, 6, (4, 5)), ('bail', 1, (1,), ['BW=1'], 3, 8, (4, 6, 8)), ('type', 1, (1,), ['RT=1'], 3, 6, (4, 5)),
                                             ('times', 1, (), ['TF=15'], 2, 4, (2,)), ('rdata', 3, (1,), ['QKIND=RDATA_NAME'], 3, 8, (4, 6)), ('rdata_single', 4, (1,), ['QKIND=RDATA_NAME'], 3, 8, (4, 6)), ('rdata_type', 3, (1,), ['QKIND=RDATA_NAME', 'RT=1'], 3, 8, (4, 6)),
                                             ('ip', 0, (), ['IP'], 2, 8, (3, 6))):
            if not kmin <= k <= kmax:
                continue
            qs.append(qq('any_%s_k%d' % (nm, k), 'h_anykey', wc, a, b=(1,), defs=d + ['K=%d' % k, 'V=3'], unwind=16, mem=True, funcs=F, tier='quick' if k in kq else 'thorough', timeout=600, mem_gb=8,
                         bounds='any key of %d bytes and value of 3 bytes; options %s' % (k, ' '.join(d))))
    return qs


prop('D07', 'filters', d07(), outside='keys of more than eight bytes in the any-bytes queries')


def d09():
    qs = []
    F = ['query_set_data_rdata_ip', 'query_init_rdata_ip', 'filter_rrtype_ip', 'filter_rrtype', 'increment_key', 'mtbl_source_get_range use']
    for v6 in (0, 1):
        n = 16 if v6 else 4
        for r in (0, 1):
            base = ['V6=%d' % v6, 'VH_UCAP=48', 'VH_KEYCAP=48'] + (['RANGE'] if r else [])
            nm = 'v%d_%s' % (6 if v6 else 4, 'range' if r else 'addr')
            qs.append(qq(nm + '_rd%d' % n, 'h_ip', defs=base + ['RD1=%d' % n], some=True, funcs=F, bounds='one entry with %d bytes of data' % n, unwind=30))
            for rd in (n - 2, n - 1, n + 1):
                for et in (2, 64):
                    qs.append(qq(nm + '_rd%d_t%d' % (rd, et), 'h_ip', defs=['V6=%d' % v6, 'VH_UCAP=40', 'VH_KEYCAP=32', 'RD1=%d' % rd, 'ET=%d' % et, 'LAB=2', 'NOMATCH'] + (['RANGE'] if r else []), some=True, funcs=F,
                                 tier='quick' if r and rd == n - 2 and et == 2 else 'thorough', unwind=30, timeout=400, weight=3, unwindset=['filter_rrtype_ip.0:7', 'filter_rrtype_ip.1:7', 'memset.0:18', 'increment_key.0:26'],
                                 bounds='one entry with %d bytes of data of type %d' % (rd, et)))
    for v6, rd0, rn, lab, pfx, ets, tier in ((0, 2, '', 2, 0, (2, 28), 'quick'), (0, 4, '', 2, 2, (2, 28), 'thorough'), (0, 5, '', 2, 2, (2,), 'quick'), (0, 6, '', 2, 2, (2,), 'thorough'),
                                             (0, 4, '', 2, 0, (2, 28), 'thorough'), (0, 5, '', 2, 0, (2, 28), 'thorough'), (0, 6, '', 2, 0, (2, 28), 'thorough'), (0, 7, '', 2, 0, (2,), 'thorough'), (0, 4, '1', 2, 0, (2,), 'thorough'),
                                             (1, 4, '', 2, 0, (2,), 'quick'), (1, 16, '', 2, 0, (2,), 'quick'), (1, 17, '', 2, 0, (2,), 'thorough'), (1, 15, '', 2, 0, (2,), 'thorough')):
        for et in ets:
            n = 1 + rd0 + 1 + 1 + 2 + (2 if rn else 0)
            qs.append(qq('v%d_after_rd%d_%s_t%d_p%d' % (6 if v6 else 4, rd0, rn or 'r', et, pfx), 'h_ip', es=((), ()),
                         defs=['V6=%d' % v6, 'VH_UCAP=%d' % (40 if v6 else 24 if rd0 <= 5 else 32), 'VH_KEYCAP=%d' % ((max(n, 18 if v6 else 6)) + 8), 'RD0=%d' % rd0, 'RD1=%d' % (16 if v6 else 4), 'ET=%d' % et, 'RN=' + rn, 'LAB=%d' % lab, 'PFX=%d' % pfx, 'RANGE'] + ([] if v6 else ['KCAP=26', 'NCAP=12']),
                         some=True, funcs=F, tier='thorough' if et != 2 else tier, unwind=30 if v6 else 26, timeout=700, mem_gb=8, weight=8,
                         unwindset=['filter_rrtype_ip.0:7', 'filter_rrtype_ip.1:7', 'memset.0:%d' % (18 if v6 else 8), 'increment_key.0:26'],
                         bounds='an entry with %d bytes of data of type %d, then an address record; the first %d address bytes fixed; bytes where label lengths may stand are at most %d or above 63' % (rd0, et, pfx, lab)))
    return qs


prop('D09', 'address ranges', d09(), outside='more than one passed-over entry before an address record; pseudo label lengths 3..63 in passed-over data; address records with data of another length')


def d10():
    qs = []
    F = ['ip4_lower', 'ip4_upper', 'ip6_lower', 'ip6_upper', 'ip4_incr', 'ip6_incr']
    FQ = ['query_set_data_rdata_ip', 'query_set_data_rdata_ip_prefix', 'query_set_data_rdata_ip_range', 'query_set_data_rdata_ip_address', 'query_load_address', 'query_init_rdata_ip']
    for v6 in (0, 1):
        w = 'v%d_' % (6 if v6 else 4)
        qs.append(Q(w + 'bounds', 'h_addr.c', 'h_bounds', 130, defs=['V6=%d' % v6], arith=True, funcs=F, bounds='all addresses, all prefix lengths'))
        qs.append(Q(w + 'next', 'h_addr.c', 'h_incr', 18, defs=['V6=%d' % v6], arith=True, funcs=F, bounds='all addresses'))
        for pl in range(129 if v6 else 33):
            qs.append(qq(w + 'prefix%d' % pl, 'h_prefix', defs=['ADDR', 'V6=%d' % v6, 'PLEN=%d' % pl, 'PN=1', 'GOOD=0', 'BADTEXT=0', 'RD1=%d' % (16 if v6 else 4), 'VH_UCAP=48', 'VH_KEYCAP=48'], some=True, funcs=FQ, unwind=130, tier='quick' if pl in ((0, 1, 63, 64, 65, 128) if v6 else (0, 1, 9, 31, 32)) else 'thorough', bounds='every address with prefix length %d, one address-sized entry of any type' % pl))
        for n in range(4):
            qs.append(qq(w + 'length%d' % n, 'h_plen', defs=['ADDR', 'V6=%d' % v6, 'PN=%d' % n, 'GOOD=0', 'BADTEXT=0', 'VH_MCAP=40', 'VH_ERRORS'], funcs=FQ, unwind=40, bounds='every length text of %d characters' % n))
        o, g, x = ('c', 'd', 'a') if v6 else ('a', 'b', 'c')
        bad = ['z', '', o + '/%d' % (129 if v6 else 33), o + '/x', o + '/', o + '/1/2', o + '/9999999999999999999999', o + '/5x', 'z/8', '/8', o + '-', '-' + o, '-', o + '-z', 'z-' + o, o + '-' + x, x + '-' + o, '%s-%s-%s' % (o, g, o), o + '-' + o + '/8', x + '/200']
        for i, t in enumerate(bad):
            for good in (0, 1):
                qs.append(qq(w + 'refused%d_%d' % (i, good), 'h_refused', defs=['ADDR', 'V6=%d' % v6, 'PN=1', 'GOOD=%d' % good, 'BADTEXT="%s"' % t, 'RD1=%d' % (16 if v6 else 4), 'VH_UCAP=48', 'VH_KEYCAP=48', 'VH_MCAP=40', 'VH_ERRORS'], some=True, funcs=FQ, unwind=40,
                             tier='quick' if good == i % 2 else 'thorough', bounds='an address or prefix is set, then "%s" is refused; every address, one address-sized entry of any type' % t))
    return qs


prop('D10', 'address texts', d10(), outside='length texts of more than three characters other than the listed ones; the conversion of an address text itself (inet_pton) is replaced by its result')


def d17():
    qs = []
    F = ['dnstable_query_filter', 'dnstable_entry_decode']

    def p(name, entry, defs, fn, **kw):
        kw.setdefault('bounds', ' '.join(defs))
        qs.append(Q(name, 'h_params.c', entry, kw.pop('unwind', 20), defs=['E0=1', 'KCAP=24', 'NCAP=12', 'VH_UCAP=36', 'VH_KEYCAP=36', 'VH_MCAP=48', 'SEQ=0', 'HOW=0', 'KIND=0', 'RAW=0'] if False else list(defs) + [x for x in ('E0=1', 'KCAP=24', 'NCAP=12', 'VH_UCAP=48', 'VH_KEYCAP=36', 'VH_MCAP=48', 'SEQ=0', 'HOW=0', 'KIND=0', 'RAW=0') if not any(d.startswith(x.split('=')[0] + '=') for d in defs)],
                    flags=MS, mem=True, funcs=fn + F, timeout=300, unwindset=['strlen.0:44', 'my_strdup.0:44', 'strcmp.0:44'], **kw))
    for n in (1, 2, 3, 4):
        p('times%d' % n, 'h_times', ['OPS=%d' % n], ['dnstable_query_set_filter_parameter'], bounds='every sequence of %d calls with any kind, value, length' % n, tier='quick' if n < 4 else 'thorough')
    for s in ((6,), (7,), (6, 6), (6, 7), (6, 0), (6, 1), (6, 2), (6, 3), (6, 4), (6, 5), (1, 6), (7, 6), (0, 7), (6, 1, 7), (6, 7, 6), (6, 1, 6)):
        p('type_' + ''.join(map(str, s)), 'h_typeseq', ['SEQ=' + ','.join(map(str, s))] + (['ALLPASS'] if s[-1] < 6 or s == (7,) or s == (0, 7) or s == (6, 1, 7) else []), ['dnstable_query_set_rrtype'], bounds='a sequence of %d calls, every type number' % len(s))
    for n in range(0, 11):
        p('type_text%d' % n, 'h_typetext', ['TN=%d' % n], ['dnstable_query_set_rrtype'], bounds='every text of %d characters, whatever type it denotes' % n, tier='quick' if n in (0, 2, 3, 7, 10) else 'thorough')
    for how in range(4):
        for b in ((), (1,), (2,), (1, 1)):
            p('bail%d_%s' % (how, ''.join(map(str, b)) or '0'), 'h_bail', ['HOW=%d' % how, 'BN=' + ','.join(map(str, b))] + (['ALLPASS'] if how == 2 or not b else []), ['dnstable_query_set_bailiwick'], bounds='every name of label lengths %s' % (b,), tier='quick' if b in ((), (1,), (1, 1)) else 'thorough')
    for k in range(7):
        p('kind%d' % k, 'h_kinds', ['KIND=%d' % k], ['dnstable_query_set_data', 'dnstable_query_set_bailiwick', 'dnstable_query_get_error'], bounds='a fixed sequence of calls')
    for n in range(0, 11):
        p('raw%d' % n, 'h_text', ['TN=%d' % n, 'RAW=1'], ['query_set_data_rdata_raw', 'hex_decode'], bounds='every text of %d characters' % n, tier='quick' if n < 6 else 'thorough')
        p('version%d' % n, 'h_text', ['TN=%d' % n], ['query_set_version_type'], bounds='every text of %d characters' % n, tier='quick' if n in (0, 5, 10) else 'thorough')
    return qs


prop('D17', 'query parameters', d17(), outside='the conversions of names and types from text, which belong to libwdns, are replaced by their results')
prop('D18', 'names', [Q('to', 'h_names.c', 'h_to', 260, funcs=['dnstable_entry_type_to_string', 'dnstable_entry_type_from_string', 'dnstable_stat_*'], unwindset=['h_to.%d:258' % i for i in range(4)], flags=MS, mem=True, bounds='every number')] +
     [Q('from%d' % n, 'h_names.c', 'h_from', 20, defs=['TN=%d' % n], funcs=['dnstable_entry_type_from_string', 'dnstable_stat_str_to_stage', 'dnstable_stat_str_to_category'], flags=MS, mem=True, bounds='every text of %d characters' % n) for n in range(0, 17)],
     outside='texts of more than 16 characters; names of record types, which belong to libwdns')


def d14():
    qs = []

    def p(name, entry, wc, a, es, defs, fn, flags_=None, **kw):
        fl = flags_
        q = qq(name, entry, wc, a, es, defs=defs, funcs=fn, **kw)
        q.src = 'h_iter.c'
        if fl is not None:
            q.flags = fl
        qs.append(q)
    ABC = ((1, 2), (2, 2), (1, 2, 2))
    D = {'rrset1': (1, (2,), ABC[:2], ['NONEMPTY']), 'rrset0': (0, (2,), ((2,),), []), 'rrset3': (3, (2,), ((2, 1),), []), 'rrset2': (2, (2,), ((2,), (1, 2)), []), 'rrset_type': (1, (2,), ABC[:2], ['RT=1', 'ET=2', 'WT=5']),
         'rdata0': (0, (2,), ((2,),), ['RDATA']), 'rdata3': (3, (2,), ((2, 1),), ['RDATA']), 'rdata1': (1, (2,), ((1, 2),), ['RDATA'])}
    FT = ['dnstable_query_set_deadline', 'dnstable_query_set_timeout', 'query_iter_set_deadline', 'timeout_iter_next', 'timeout_mtbl_init', 'query_iter_next', 'query_iter_next_name_indirect']
    for nm, (wc, a, es, d) in D.items():
        for m in (0, 1, 2, 3):
            p('clock_%s_m%d' % (nm, m), 'h_deadline', wc, a, es, d + ['CLOCK', 'MODE=%d' % m], FT, tier='quick' if nm in ('rrset0', 'rrset3', 'rrset_type') or m == 3 else 'thorough', flags_=None if m != 1 else [])
        for m in (1, 2):
            p('timeout_%s_m%d' % (nm, m), 'h_timeout', wc, a, es, d + ['CLOCK', 'MODE=%d' % m], FT, tier='quick' if m == 1 else 'thorough')
    FO = ['dnstable_query_set_offset', 'filter_offset', 'filter_iter_next', 'query_iter_next']
    for off in (0, 1, 2, 3, 4, '0xffffffffffffffffull'):
        p('offset%s' % off if off in (0, 1, 2, 3, 4) else 'offset_max', 'h_offset', 1, (2,), ABC, ['OFF=%s' % off], FO)
        p('offset%s_two' % (off if off in (0, 1, 2, 3, 4) else '_max'), 'h_offset', 1, (2,), ABC[:2], ['OFF=%s' % off], FO, tier='quick' if off in (1, 2) else 'thorough')
        p('offset%s_type' % (off if off in (0, 1, 2, 3, 4) else '_max'), 'h_offset', 1, (2,), ABC, ['OFF=%s' % off, 'RT=1', 'ET=2', 'WT=5'], FO, tier='quick' if off in (0, 1) else 'thorough')
    FB = ['dnstable_query_destroy', 'query_iter_free', 'dnstable_iter_destroy', 'filter_mtbl_destroy', 'timeout_mtbl_destroy']
    for nm, (wc, a, es, d) in list(D.items()) + [('rrset_times', (1, (2,), ABC[:1], ['TF=15'])), ('rrset4', (4, (2,), ((2, 1),), []))]:
        for r in (0, 1, 2):
            for off in (0, 1):
                p('release_%s_r%d_o%d' % (nm, r, off), 'h_balance', wc, a, es, d + ['VH_COUNT', 'READS=%d' % r, 'OFF=%d' % off, 'KEYS=0', 'DATA=""'], FB, mem=True, tier='quick' if r != 1 and off == r // 2 else 'thorough')
    for k, keys, data in ((1, '2,0,1,2,3,1,0,4,0', 'a'), (1, '2,0,1,2,3,1,0,4,0', 'a-b'), (1, '2,0,1,2,3,1,0,4,0', 'b/9'), (2, '2,0,1,2,3,1,0,4,0', ''), (3, '255,0', ''), (4, '254', ''), (5, '253,1', '')):
        for r in (0, 2):
            p('release_kind%d%s_r%d' % (k, {'': '', 'a': 'a', 'a-b': 'r', 'b/9': 'p'}[data], r), 'h_balance', 0, (), ((),), ['VH_COUNT', 'KIND=%d' % k, 'READS=%d' % r, 'KEYS=' + keys, 'DATA="%s"' % data, 'VH_UCAP=48', 'VH_KEYCAP=48', 'VH_MCAP=40'], FB, mem=True)
    return qs


prop('D14', 'iteration', d14(), outside='reading on after a timeout; results of more than three entries; deadlines beyond 2^33 seconds')


MS = ['--sat-solver', 'minisat2']


def l16():
    f = ['my_fileset_init', 'my_fileset_reload', 'my_fileset_get', 'my_fileset_destroy', 'setfile_updated', 'fetch_entry', 'cmp_fileset_entry']

    def q(name, tier='quick', lines=2, extra=(), **k):
        d = ['VH_UCAP=6', 'VH_MCAP=4', 'VH_VCAP=%d' % lines, 'LINES=%d' % lines] + list(extra) + ['%s=%s' % x for x in k.items()]
        return Q(name, 'h_fileset.c', 'h_fileset', 8, defs=d, funcs=f, flags=MS, tier=tier, timeout=400, mem_gb=8, weight=10, gens=[('plain', 'libmy/my_fileset.c')], preinc=['models/libmy'],
                 bounds='lists of %s, %s and %s lines over %s names; every list content, existing files, inode and time of the list; fault per reload %s/%s/%s' % (
                     k.get('N1', 1), k.get('N2', 1), k.get('N3', 1) if k.get('RELOADS', 2) > 2 else '-', k.get('NF', 3), k.get('F1', 0), k.get('F2', 0), k.get('F3', 0)))
    D = ['DISTINCT']
    return [
        q('lists_1_1', NF=2, N1=1, N2=1), q('lists_0_2', NF=2, N1=0, N2=2), q('lists_2_0', NF=2, N1=2, N2=0), q('lists_2_1', NF=2, N1=2, N2=1),
        q('dup_2_2', NF=2, N1=2, N2=2), q('three_2_2', NF=3, N1=2, N2=2, extra=D),
        q('nolast_2_2', NF=2, N1=2, N2=2, extra=D + ['LASTNL']),
        q('open_fails', NF=2, N1=2, N2=1, RELOADS=3, F2=2, extra=D), q('stat_fails', NF=2, N1=1, N2=1, N3=2, RELOADS=3, F2=1, extra=D),
        q('open_fails_first', NF=2, N1=1, N2=2, F1=2, extra=D),
        q('three_reloads', NF=2, N1=2, N2=1, N3=2, RELOADS=3, extra=D),
        q('dup_three', 'thorough', NF=2, N1=2, N2=2, N3=2, RELOADS=3), q('three_lines', 'thorough', lines=3, NF=3, N1=2, N2=3), q('three_three', 'thorough', lines=3, NF=3, N1=3, N2=3, extra=D),
    ]


prop('L16', 'file set', l16(), scope='lists of up to two lines (thorough: three), two or three reloads')


def l17():
    f = ['spooldir_init', 'spooldir_next', 'spooldir_destroy']

    def q(name, fn, tier='quick', **k):
        return Q(name, 'h_spool.c', fn, 17, defs=['VH_UCAP=16', 'VH_MCAP=4'] + ['%s=%s' % x for x in k.items()], funcs=f, flags=MS, tier=tier, timeout=400, mem_gb=8, weight=10,
                 gens=[('plain', 'libmy/spooldir.c')], preinc=['models/libmy'],
                 bounds='%s file names, %s calls, up to %s acts of others at any system calls; every spool content and refusal of the move' % (k['NF'], k.get('CALLS', 'enough'), k['MOVES']))
    return [q('shared_1', 'h_spool', NF=1, CALLS=2, MOVES=2), q('shared_2', 'h_spool', NF=2, CALLS=1, MOVES=2), q('drain_1', 'h_drain', NF=1, MOVES=0), q('drain_2', 'h_drain', NF=2, MOVES=0),
            q('shared_22', 'h_spool', 'thorough', NF=2, CALLS=2, MOVES=3)]


prop('L17', 'spool directory', l17(), scope='up to two names, two calls and three acts of others')
