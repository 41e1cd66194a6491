import re
from driver import Harness as H
PROPS = {}

def P(pid, harnesses, assumptions=(), outside='', known=()):
    PROPS[pid] = dict(harnesses=harnesses, assumptions=list(assumptions), outside=outside, known=list(known))

B64 = ['src/data/base64.c']
P('B01', [
    H('roundtrip', 'b_base64.c', 'h_roundtrip', B64, unwind=16, defs=['-DN=9'], bounds='payload 1..9 bytes, every byte value',
      thorough=dict(defs=['-DN=24'], unwind=36, timeout=1500, bounds='payload 1..24 bytes, every byte value')),
    H('decode_any', 'b_base64.c', 'h_decode_any', B64, unwind=14, defs=['-DN=10'], bounds='any C string of up to 10 bytes',
      thorough=dict(defs=['-DN=24'], unwind=28, timeout=1500, bounds='any C string of up to 24 bytes')),
    H('sizes', 'b_base64.c', 'h_sizes', B64, unwind=4, bounds='lengths 0..2^30 for the size formulas'),
])
URL = ['src/net/url_encoder_decoder.c']
P('U01', [
    H('encode', 'b_url.c', 'h_encode', URL, unwind=16, defs=['-DN=4'], bounds='0..4 source bytes of any value, output sizes 0..14',
      thorough=dict(defs=['-DN=8'], unwind=28, timeout=1500, bounds='0..8 source bytes of any value, output sizes 0..26')),
    H('decode_any', 'b_url.c', 'h_decode_any', URL, unwind=10, defs=['-DN=7'], bounds='0..7 text bytes of any value, output sizes 0..9',
      thorough=dict(defs=['-DN=14'], unwind=18, timeout=1500, bounds='0..14 text bytes of any value, output sizes 0..16')),
])
P('I01', [H('pow2', 'b_integer.c', 'h_pow2', ['src/data/integer.c'], unwind=34, bounds='all 2^32 arguments')])
ARR = ['src/data/array.c']
def arr(name, es, cap, k, fails, every, **kw):
    return H(name, 'a_array.c', 'h_append', ARR, unwind=max(k, 16) + 8, libs=['alloc', 'log'], defs=['-DES=%d' % es, '-DCAP=%d' % cap, '-DK=%d' % k, '-DFAILS=%d' % fails, '-DEVERY=%d' % every],
             bounds='element size %d, initial capacity %d, %d appends, no growth or any one of the first %d growth attempts refused memory' % (es, cap, k, fails), fs=600, **kw)
P('A01', [arr('append_es%d_cap%d' % (es, cap), es, cap, k, fails, 0) for es, cap, k, fails in
          [(1, 0, 14, 4), (2, 4, 10, 3), (3, 5, 12, 3), (4, 4, 14, 4), (8, 4, 10, 3), (12, 6, 10, 2), (1, 16, 40, 3), (4, 16, 26, 2)]] + [
    arr('append_every', 3, 4, 10, 3, 1),
    H('create', 'a_array.c', 'h_create', ARR, unwind=4, libs=['alloc', 'log'], defs=['-DK=4', '-DFAILS=0', '-DEVERY=0'], bounds='element size 1..16, capacity 0..40, allocation may fail'),
])
MEM = ['src/mem/allocator.c', 'src/mem/allocation_tracker.c', 'src/data/hashmap.c', 'src/data/hash_functions.c', 'src/mem/strings.c']
P('L01', [H('list_len%d_%s' % (n, o), 'l_list.c', 'h_list', ['src/data/list.c'] + MEM, unwind=9, libs=['alloc', 'log'], defs=['-DLEN=%d' % n, '-DOP1=%d' % i],
            flags=['--no-signed-overflow-check'], cov_goals_optional=('insert', 'remove'),
            tiers=('quick', 'thorough') if n <= 3 else ('thorough',), timeout=400,
            bounds='%d elements drawn from 3 (duplicates allowed), %s, any second operation, any allocation may fail' % (n, o))
          for n in range(0, 5) for i, o in enumerate(['append', 'prepend', 'insert_after', 'remove', 'clear']) if not (n == 0 and i == 2)] + [
    H('null', 'l_list.c', 'h_null', ['src/data/list.c'] + MEM, unwind=9, libs=['alloc', 'log'], defs=['-DLEN=0', '-DOP1=0'], bounds='NULL arguments'),
])
HMF = dict(flags=['--no-signed-overflow-check', '--no-undefined-shift-check'], native_flags=['-fno-sanitize=signed-integer-overflow,shift'])
def hm(script, fail=0, cap=1, ids=3, cbs=1, unwind=6, anyhash=False, reps='0,6,7,5', shard=0, shards=1, tag='', **kw):
    nrep = reps.count(',') + 1
    return H('map_%s_%s%s%s%s' % ('any' if anyhash else 'pat', script, '_fail%d' % fail if fail else '', '' if cbs else '_nocb', ('_%d' % shard if shards > 1 else '') + tag), 'h_hashmap.c', 'h_map_anyhash' if anyhash else 'h_map', ['src/data/hashmap.c'],
             unwind=unwind if anyhash else max(nrep ** ids + 1, 20), libs=['alloc'],
             defs=['-DSCRIPT="%s"' % script, '-DCAP=%d' % cap, '-DFAILAT=%d' % fail, '-DCBS=%d' % cbs, '-DIDS=%d' % ids, '-DREPS={%s}' % reps, '-DPATS=%d' % nrep ** ids, '-DSHARD=%d' % shard, '-DSHARDS=%d' % shards],
             bounds='operation script %s (a.. put, A.. put through another key object, 0.. remove, x clear), %s, arbitrary values, initial capacity %d%s' % (script, 'arbitrary 32-bit hashes' if anyhash else 'every assignment of hashes from {%s} (bucket patterns)' % reps, cap, (', the table can never grow' if fail == 99 else ', allocation %d fails' % fail) if fail else ''), **dict(HMF, **kw))
R4 = '0,6,7,5'
P('H01', [hm('ab01', anyhash=True, ids=2)] + [hm('ab', f, anyhash=True, ids=2) for f in (1, 2, 3)] +
  [hm(x, reps=R4, ids=2) for x in ('abA', 'ab0A', 'abxab', 'ab1Bb0a')] +
  [hm(x, reps='0,6,5') for x in ('abcB', 'abc0', 'abc1', 'abc2', 'abcC1', 'abc2cC', 'abc02a1')] +
  [hm('abcd3B', ids=4, reps='7,5'), hm('abcde1', ids=5, reps='6,5'), hm('abc1', cbs=0, reps='0,5')] +
  [hm('abc1', fail=f, reps='0,6,5') for f in (5, 6)] + [hm('abcdB', cap=4, ids=4, reps='0,-5', fail=f) for f in (0, 3, 5)] +
  [hm('abcd1', cap=2, ids=4, reps='0,5', fail=99), hm('abcde0b', cap=1, ids=5, reps='6,5', fail=99)] +
  [hm(x, reps=R4, tiers=('thorough',), timeout=1200, tag='_r4') for x in ('abcB', 'abc0', 'abc1', 'abc2', 'abcC1', 'abc2cC', 'abc02a1', 'abcxcba')] +
  [hm('abcdeDe1', ids=5, reps='6,7,5', tiers=('thorough',), timeout=2400), hm('abcdef3', ids=6, reps='6,5', tiers=('thorough',), timeout=2400)] + [
   H('null', 'h_hashmap.c', 'h_null', ['src/data/hashmap.c'], unwind=8, libs=['alloc'], defs=['-DSCRIPT=""', '-DCAP=1', '-DFAILAT=0', '-DCBS=1', '-DREPS={0}', '-DPATS=1', '-DSHARD=0', '-DSHARDS=1'], bounds='NULL map; creation with any allocation refused', **HMF)])

RB = ['src/ring/ringbuffer.c']
def rb(script, cap, **kw):
    return H('stream_%s_cap%d' % (script, cap), 'r_ringbuffer.c', 'h_stream', RB, unwind=12, libs=['alloc', 'log', 'mem'], probe='p_ringbuffer.c', defs=['-DCAP=%d' % cap, '-DSCRIPT="%s"' % script],
             bounds='capacity %d, operations %s (write, read, peek, discard, clear), each of any length 0..%d and content, starting at any 32-bit counter value' % (cap, script, cap + 2), fs=300, **kw)
P('R01', [rb(x, c) for x, c in (('WRWR', 4), ('WWRR', 4), ('WDWPR', 4), ('RWPRW', 4), ('WRCWR', 4), ('WRWP', 8))] +
  [rb(x, c, tiers=('thorough',), timeout=1500) for x, c in (('WRWRWRW', 4), ('WPDWRWPR', 4), ('WWRDWR', 8), ('WRWR', 16))] + [
   H('create', 'r_ringbuffer.c', 'h_create', RB, unwind=36, libs=['alloc', 'log', 'mem'], probe='p_ringbuffer.c', bounds='requested size 0..40, allocation may be refused'),
   H('create_with_mem', 'r_ringbuffer.c', 'h_create_with_mem', RB, unwind=36, libs=['alloc', 'log', 'mem'], probe='p_ringbuffer.c', bounds='every 32-bit block size'),
])
R2 = ['src/ring/ring_buf.c']
def r2(script, size, **kw):
    return H('stream_%s_size%d' % (script, size), 'r_ring_buf.c', 'h_stream', R2, unwind=12, libs=['alloc', 'log', 'mem'], probe='p_ring_buf.c', defs=['-DSIZE=%d' % size, '-DSCRIPT="%s"' % script],
             bounds='size %d, operations %s (write, read, peek, discard, clear), each of any length 0..%d and content, starting at every offset' % (size, script, size + 1), fs=300, **kw)
P('R02', [r2(x, c) for x, c in (('WRWR', 4), ('WRWPR', 5), ('WDWPR', 3), ('WWRR', 5), ('WRCWR', 4), ('WRW', 7))] +
  [r2(x, c, tiers=('thorough',), timeout=1500) for x, c in (('WRWRWR', 5), ('WPDWRWPR', 4), ('WRWR', 8))] + [
   H('create', 'r_ring_buf.c', 'h_create', R2, unwind=24, libs=['alloc', 'log', 'mem'], defs=['-DSIZE=4', '-DSCRIPT=""'], probe='p_ring_buf.c', bounds='requested size 0..20, allocation may be refused')])
AC = ['src/ring/autocover_buffer.c', 'src/ring/ringbuffer.c']
def ac(script, cap, **kw):
    return H('cover_%s_cap%d' % (script, cap), 'r_autocover.c', 'h_cover', AC, unwind=12, libs=['alloc', 'log', 'mem'], defs=['-DCAP=%d' % cap, '-DSCRIPT="%s"' % script],
             cov_goals_optional=('caught up', 'covered', 'not enough'),
             bounds='capacity %d, operations W%s (write, read, oversize write) of any length and content, reads at any of the last %d positions' % (cap, script, cap), fs=300, **kw)
P('R03', [ac(x, c) for x, c in (('WR', 4), ('WWR', 4), ('WRWR', 4), ('RWR', 4), ('WRR', 4), ('WRBWR', 4), ('WR', 8))] +
  [ac(x, c, tiers=('thorough',), timeout=1500) for x, c in (('WRWRWR', 4), ('WWRR', 8))] + [
   H('create', 'r_autocover.c', 'h_create', AC, unwind=24, libs=['alloc', 'log', 'mem'], defs=['-DCAP=4', '-DSCRIPT=""'], bounds='capacity 4, any allocation may be refused')])
MQ = ['src/ring/msg_queue.c', 'src/ring/ringbuffer.c']
def mq(script, cap, pre, **kw):
    return H('queue_%s_cap%d_pre%d' % (script, cap, pre), 'q_msgqueue.c', 'h_queue', MQ, unwind=20, libs=['alloc', 'log', 'mem'], probe='p_msgqueue.c', defs=['-DWANT=%d' % cap, '-DPRE=%d' % pre, '-DSCRIPT="%s"' % script],
             cov_goals_optional=('empty', 'short buffer', 'popped'),
             bounds='%d byte queue started at offset %d, operations %s (push, pop, clear) with any message length 0..%d, content and buffer size' % (cap, 5 * pre % cap, script, cap + 1), fs=300, **kw)
P('Q01', [mq('PPOO', 16, pre) for pre in (0, 1, 2, 3)] + [mq('OPOO', 16, 2), mq('PCPO', 16, 3), mq('POPO', 16, 3), mq('PPPOO', 16, 3, timeout=400)] +
  [mq('POPOPO', 16, pre, tiers=('thorough',), timeout=2000) for pre in range(0, 7)] + [mq('PPPOOO', 32, 5, tiers=('thorough',), timeout=2000)] + [
   H('args', 'q_msgqueue.c', 'h_args', MQ, unwind=40, libs=['alloc', 'log', 'mem'], probe='p_msgqueue.c', defs=['-DWANT=16', '-DPRE=0', '-DSCRIPT=""'], bounds='NULL arguments, message sizes up to 2^32-1, refused allocation')])
FQ = ['src/ring/fixed_msg_queue.c', 'src/ring/ringbuffer.c']
def fq(script, sz, mx, pre=3, **kw):
    return H('fixed_%s_sz%d_max%d' % (script, sz, mx), 'q_fixed.c', 'h_fixed', FQ, libs=['alloc', 'log', 'mem'], probe='p_fixed.c', defs=['-DSZ=%d' % sz, '-DMAXMSG=%d' % mx, '-DPRE=%d' % pre, '-DNA=%d' % script.count('A'), '-DSCRIPT="%s"' % script],
             bounds='message size %d, requested maximum %d, operations %s (push, pop, any of both, clear, pop to NULL), any content, any starting slot' % (sz, mx, script), fs=300, **dict(dict(unwind=max(20, 2 ** script.count('A') + 1)), **kw))
P('Q02', [fq(x, sz, mx, pre) for sz, mx, pre in ((4, 12, 3), (4, 16, 3), (3, 16, 5), (5, 10, 2), (8, 8, 3)) for x in ('OPPPPPOPOOOOPO', 'PPOPPOPOPCOPPON')] + [
   fq('PPPPPPOPOOOOOOO', 1, 36, 3), fq('PPAAAA', 4, 12, 0, unwind=20),
   H('args', 'q_fixed.c', 'h_args', FQ, unwind=12, libs=['alloc', 'log', 'mem'], probe='p_fixed.c', defs=['-DSZ=8', '-DMAXMSG=8', '-DPRE=0', '-DNA=0', '-DSCRIPT=""'], bounds='zero sizes, refused allocation')] + [
   fq('AAAAAAA', sz, mx, 0, tiers=('thorough',), timeout=3000) for sz, mx in ((4, 12), (3, 16))])
def spsc(mw, cap, sw, ops=0, **kw):
    return H('ring_%s_cap%d_sw%d%s' % ('writer' if mw else 'reader', cap, sw, '_ops' if ops else ''), 'r_spsc.c', 'h_spsc', RB, unwind=10, libs=['alloc', 'log', 'memx'], probe='p_ringbuffer.c',
             defs=['-DCAP=%d' % cap, '-DMAIN_WRITES=%d' % mw, '-DSWITCHES=%d' % sw, '-DOPS=%d' % ops], fs=300,
             bounds='capacity %d, the %s is interrupted before, within or after each of its copies up to %d times by a whole operation of the other thread; any lengths, contents and 32-bit positions' % (cap, 'writer' if mw else 'reader', sw), **kw)
def mspsc(mp, first, pre, sw=1, **kw):
    return H('msgq_%s_first%d_pre%d_sw%d' % ('pusher' if mp else 'popper', first, pre, sw), 'q_spsc.c', 'h_spsc', MQ, unwind=12, libs=['alloc', 'log', 'memx'], probe='p_msgqueue.c',
             defs=['-DWANT=16', '-DMAIN_PUSHES=%d' % mp, '-DFIRST=%d' % first, '-DPRE=%d' % pre, '-DSWITCHES=%d' % sw], fs=300, cov_goals_optional=('incomplete message seen', 'interrupted'),
             bounds='16 byte message queue, %d message stored, the %s is interrupted before, within or after each of its copies up to %d times by a whole operation of the other thread; any message length 1..6 and content' % (first, 'pushing thread' if mp else 'popping thread', sw), **kw)
def fspsc(mp, first, pre, **kw):
    return H('fixedq_%s_first%d_pre%d' % ('pusher' if mp else 'popper', first, pre), 'q_fspsc.c', 'h_spsc', FQ, unwind=12, libs=['alloc', 'log', 'memx'], probe='p_fixed.c',
             defs=['-DSZ=5', '-DMAXMSG=12', '-DMAIN_PUSHES=%d' % mp, '-DFIRST=%d' % first, '-DPRE=%d' % pre, '-DSWITCHES=2'], fs=300, cov_goals_optional=('interrupted',),
             bounds='fixed message queue, %d messages stored, the %s is interrupted before, within or after each of its copies up to 2 times by a whole operation of the other thread; any content' % (first, 'pushing thread' if mp else 'popping thread'), **kw)
P('R04', [spsc(mw, 4, 1) for mw in (0, 1)] + [spsc(mw, 4, 2, tiers=('thorough',), timeout=900) for mw in (0, 1)] + [spsc(mw, 8, 1, tiers=('thorough',), timeout=2400) for mw in (0, 1)] +
  [mspsc(mp, f, pre) for mp in (0, 1) for f, pre in ((0, 0), (1, 1), (1, 2), (0, 3))] + [fspsc(mp, f, pre) for mp in (0, 1) for f in (0, 1, 2) for pre in (0, 2)])

HSTUBS = ['portable_sem_init', 'portable_sem_destroy', 'portable_sem_post', 'portable_sem_wait', 'portable_thread_create', 'portable_thread_join', 'portable_thread_gettid', 'usleep']
def qh(fixed, fn, script, bits=0, bad=0, early=0, qsize=None, oomw=1, **kw):
    repo = ['src/ring/fixed_msg_queue_handler.c'] + FQ if fixed else ['src/ring/msg_queue_handler.c'] + MQ
    qs = qsize or (2 if fixed else 128)
    return H('%s_%s_%s%s%s%s' % ('fixed' if fixed else 'var', fn, script, '_bad%d' % bad if bad else '', '_early%d' % early if early else '', '_q%d' % qs), 'q_handler.c', 'h_' + fn, repo, unwind=max(20, 2 ** bits + 1),
             libs=['alloc', 'log', 'mem'], stubs=HSTUBS, fs=300, unwindset=['memcpy.0:40', 'memcpy.1:40'],
             shadow=[('inc/ring/fixed_msg_queue_handler.h', r'#define\s+MSG_OBJ_MAX_CAPACITY.*', '#define MSG_OBJ_MAX_CAPACITY (4)')] if fixed else [],
             defs=['-DSCRIPT="%s"' % script, '-DBITS=%d' % bits, '-DBAD=%d' % bad, '-DEARLY=%d' % early, '-DQSIZE=%d' % qs, '-DOOM_WORKER=%d' % oomw, '-DVF_PTRCOPY=24'] + (['-DFIXED'] if fixed else []),
             bounds='%s queue of %d, %suser operations %s (digit: push with that payload size, c: clear), %d of them before the worker starts, every choice of %d points where the user preempts the worker%s; any message content' % ('fixed-size message' if fixed else 'variable-size message', qs, 'payload capacity reduced from 1024 to 4, ' if fixed else '', script, early, bits, ', callback fails on message %d' % bad if bad else ''), **kw)
P('Q03', [qh(0, 'worker', '0123', 3), qh(0, 'worker', '2310', 4), qh(0, 'worker', '312', 2, bad=2), qh(0, 'worker', '2222', 1, early=4), qh(0, 'worker', '30303', 2, early=2, bad=3), qh(0, 'worker', '333', 2, qsize=64),
  qh(0, 'destroy', '12'), qh(0, 'destroy', ''), qh(0, 'create', ''),
  qh(1, 'worker', '0123', 3), qh(1, 'worker', '31c2', 3), qh(1, 'worker', '11c', 2, early=3), qh(1, 'worker', '1c23', 2, early=1), qh(1, 'worker', '123', 2, bad=2), qh(1, 'worker', '1111', 1, early=4), qh(1, 'destroy', '12'), qh(1, 'create', '')])
MPL = ['src/mem/mplite.c']
MPF = dict(flags=['--no-signed-overflow-check', '--no-undefined-shift-check'], native_flags=['-fno-sanitize=signed-integer-overflow,shift'])
def mpl(fn, script, nblk, cut=0, extra=0, **kw):
    return H('%s_%s_blk%d%s' % (fn, script, nblk, '_cut%d' % cut if cut else ''), 'm_mplite.c', 'h_' + fn, MPL, unwind=40, libs=['mem'], fs=200,
             defs=['-DSCRIPT="%s"' % script, '-DPOOL=%d' % (nblk * 9 + extra), '-DCUT=%d' % cut, '-DMINA=8', '-DSTEPS=1'],
             bounds='pool of %d atoms of 8 bytes, operations %s (0..3 allocate 1,2,4,8 atoms, z calloc, a.. free n-th block, A.. grow, M.. shrink, m allocate any size), any content' % (nblk, script), **dict(MPF, **kw))
P('M01', [mpl('script', x, n, c) for x, n, c in (('0120a1b', 8, 0), ('111a0c2', 8, 1), ('00000ace1', 7, 0), ('0A1zbA', 11, 3), ('2aM3', 8, 0), ('1Az0a1', 8, 0), ('3', 7, 0), ('012bac', 13, 5))] + [
   mpl('any', x, n, **(dict(tiers=('thorough',), timeout=900) if len(x) > 1 else {})) for x, n in (('m', 5), ('mm', 4), ('mam', 4), ('mma', 3))] + [
   mpl('sizes', '', 5), mpl('args', '', 5)])
TRK = ['src/mem/allocator.c', 'src/mem/allocation_tracker.c', 'src/data/hashmap.c', 'src/mem/strings.c']
def trk(fn, tracked, script='', kind=0, **kw):
    return H('%s_%s%s%s' % (fn, 'tracked' if tracked else 'plain', '_' + script if script else '', '_kind%d' % kind if kind else ''), 'm_tracker.c', 'h_' + fn, TRK, unwind=40, libs=['alloc', 'log', 'mem'], fs=300,
             unwindset=['memcpy.1:2200'], stubs=['hash_function_pointer', 'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'abort'],
             shadow=[('src/mem/allocation_tracker.c', r'#define\s+ALLOCATION_MAP_INIT_CAPACITY.*', '#define ALLOCATION_MAP_INIT_CAPACITY (12)')],
             defs=['-U_DEBUG', '-DVF_PTRCOPY=24', '-DTRACKED=%d' % tracked, '-DSCRIPT="%s"' % script, '-DKIND=%d' % kind],
             cov_goals_optional=('alarm',), bounds='%s, operations "%s", any content' % ('tracker on' if tracked else 'tracker off', script or ['write next to a block then free', 'write next to a block then check', 'double free', 'free of foreign memory', 'free inside a block', 'free by another allocator'][kind] if fn != 'overflow' else 'overflowing sizes at the edges'), **dict(HMF, **kw))
P('M02', [trk('use', 1, x) for x in ('mMFcf', 'msnf', 'mrRF', 'MBrz', 'NrRf', 'cxmO', 'mcRFmf')] + [trk('use', 0, x) for x in ('mrRF', 'sMnf', 'NRzcO', 'cBf')] +
  [trk('misuse', 1, '', k) for k in range(6)] + [trk('overflow', t) for t in (0, 1)])

STR = ['src/mem/strings.c']
def st(fn, n=4, unwind=12, tag='', defs=(), libs=('alloc', 'mem'), tm=None, **kw):
    return H('%s%s' % (fn, tag), 's_strings.c', 'h_' + fn, STR, unwind=unwind, libs=libs, fs=64, defs=['-DN=%d' % n] + (['-DVF_TAILMAX=%d' % tm] if tm else []) + list(defs), **kw)
P('S01', [st('copy', 5, bounds='source strings of 0..5 bytes, destination sizes 0..7', thorough=dict(defs=['-DN=12'], unwind=20, timeout=1200, bounds='source strings of 0..12 bytes, destination sizes 0..14')),
   st('cat', 4, bounds='source strings of 0..4 bytes, any destination content of 0..7 bytes', thorough=dict(defs=['-DN=9'], unwind=20, timeout=1200, bounds='source strings of 0..9 bytes, destination sizes 0..12')),
   st('replace', 3, unwind=10, tm=12, bounds='originals of 0..3 bytes, patterns and replacements of 0..2 bytes'),
   st('split', 4, unwind=7, bounds='texts of 0..4 bytes, 0..2 delimiters, room for 0..2 pieces'),
   st('trim', 4, unwind=7, solver='cadical', bounds='texts of 0..4 bytes, sets of 0..2 bytes'),
   st('utf8', 5, bounds='0..7 bytes of any value, every limit')] + [
   st('hex', 4, tag='_%d' % i, unwind=45, libs=('alloc', 'mem', 'fmt'), defs=['-DLO=%d' % a, '-DHI=%d' % b, '-DCLO=%d' % c, '-DCHI=%d' % d], bounds='%d..%d bytes of any value, room of %d..%d bytes' % (a, b, c, d))
   for i, (a, b, c, d) in enumerate(((0, 1, 0, 8), (2, 3, 0, 12), (7, 8, 20, 26)))])
SB = ['src/mem/stringbuilder.c']
def sbh(script, init, fails, fn='script', **kw):
    return H('%s_%s_init%d' % (fn, re.sub(r'\W', lambda m: '%02x' % ord(m.group()), script), init), 's_builder.c', 'h_' + fn, SB, unwind=40, libs=['alloc', 'mem', 'fmt'], fs=256,
             defs=['-DSCRIPT="%s"' % script, '-DINIT=%d' % init, '-DFAILS=%d' % fails, '-DVF_STRLEN=1'],
             bounds='initial buffer %d, operations "%s" (digit: text of that length, A..: exactly n unterminated bytes, a..: text shorter than the limit, .: character, %%: format, x: clear), any bytes; no or the n-th allocation (n <= %d) refused' % (init, script, fails), **kw)
P('S02', [sbh('3.2%x1', 4, 9), sbh('Ba.x0c', 2, 9), sbh('%A9', 5, 8), sbh('91%.', 0, 6), sbh('', 4, 0, 'args')])
