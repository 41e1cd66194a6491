p('B01', 'Base64 encoding round-trips and stays inside its buffers',
  '''Encoding any non-empty byte string yields standard padded Base64 text of exactly the announced length, NUL terminated, and decoding that text gives
  the original bytes back with the exact original length. Decoding text that is not valid Base64 is refused, and neither direction ever writes or reads outside the
  buffers sized by the library's own length functions.''',
  ['inputs'], 'every byte string and every text up to the stated length', 'The test encodes one or two fixed strings; padding, every alphabet position and malformed text need all inputs.',
  ['src/data/base64.c', 'inc/data/base64.h'], [('encode/decode with length formulas', 'src/data/base64.c')])
p('U01', 'URL encoding is reversible and never overruns the output buffer',
  '''Percent-encoding any byte string and decoding the result gives back the same bytes, the encoded text uses only unreserved characters, '+' and upper-case percent escapes, and the
  announced lengths are the ones produced. Whatever the text, decoding and encoding never read past the source length nor write past the output size the caller gave,
  and report failure when the output does not fit.''',
  ['inputs'], 'every byte string / text up to the bound, every output size', 'The test uses one URL with a large buffer; truncated escapes, every byte value and every output size are not tried.',
  ['src/net/url_encoder_decoder.c', 'inc/net/url_encoder_decoder.h'], [('bounded encode/decode loops', 'src/net/url_encoder_decoder.c')])
p('I01', 'Power-of-two helpers are exact over the whole 32-bit range',
  '''For every 32-bit unsigned value the power-of-two test is true exactly for powers of two, rounding down gives the largest power of two not above the value, and rounding up the smallest not below it
  when that is representable.''',
  ['inputs'], 'all 2^32 argument values', 'Tests try a few values; the edges near 0 and 2^31 need the whole range.',
  ['src/data/integer.c', 'inc/data/integer.h'], [('bit tricks', 'src/data/integer.c')])
p('A01', 'Growable array keeps every element through growth and out of memory',
  '''After any sequence of appends, by pointer or by value, the array reports exactly the number of successful appends and every stored element reads back unchanged, in order, whether it still lives in the internal storage or has moved
  to the heap. When memory for growth is refused the append fails and the array is unchanged, and freeing the array releases all of its memory.''',
  ['inputs', 'histories', 'fault_sequences'], 'every element content, several element sizes and capacities, append sequences crossing growth points, any refused growth', 'No repository test exercises the array; growth with refused memory needs fault sequences.',
  ['src/data/array.c', 'inc/data/array.h'], [('capacity doubling from internal storage', 'src/data/array.c')])
p('L01', 'Linked list behaves as an ordered sequence and owns its elements',
  '''Append, prepend, insert after a node, remove and clear act exactly as on an ordered sequence: length, front, back, membership, iteration order and node traversal always agree, removal takes the first matching element only, and the callback is stopped when it asks to.
  Elements leaving the list are passed to the cleanup function exactly once, and when memory is refused the operation reports failure and the list is unchanged and nothing leaks.''',
  ['inputs', 'histories', 'fault_sequences'], 'lists of up to 4 elements with duplicates, every pair of operations, any refused allocation', 'The test is one fixed insertion order; duplicates, removal positions and refused allocations are not covered.',
  ['src/data/list.c', 'inc/data/list.h'], [('head/tail/length maintenance', 'src/data/list.c')])
p('H01', 'Hash map is a map: latest value per key under collisions, resize and faults',
  '''Through any sequence of put, get, remove and clear, whatever the hash values, the map holds exactly the latest value of each key, the size is the number of distinct keys, and iteration visits every pair exactly once unless the callback stops it. A replaced value, a removed or cleared pair is passed to the cleanup callbacks exactly once,
  every operation takes and releases the configured lock exactly once, and a refused allocation leaves all existing pairs intact with nothing leaked at destruction.''',
  ['inputs', 'histories', 'fault_sequences'], 'operation scripts over up to 5 keys crossing the resize points, collision patterns of the hash values, arbitrary values, a refused allocation at any point', 'The tests use the map only indirectly with few keys; collision chains, resize during collisions and refused memory are not exercised.',
  ['src/data/hashmap.c', 'inc/data/hashmap.h'], [('bucket chains, secondary hash, load factor expansion', 'src/data/hashmap.c')])
p('R01', 'Byte ring buffer is a bounded FIFO stream at every counter position',
  '''Whatever the sequence of writes, reads, peeks, discards and clears, and however often the positions have wrapped around, the ring buffer delivers exactly the bytes that were written, in order, each once, and the readable and writable amounts
  always add up to the capacity. An operation moves exactly what fits, as announced, peeking and discarding agree with reading, nothing outside the buffer is touched, and creation over caller memory or with refused memory is safe for every requested size.''',
  ['inputs', 'histories', 'fault_sequences'], 'operation sequences of any lengths and contents from every 32-bit counter value; every block size', 'Tests stream a file from position zero; wrap-around of the free running 32-bit counters and every fill level are unreachable for them.',
  ['src/ring/ringbuffer.c', 'inc/ring/ringbuffer.h'], [('free running masked counters', 'src/ring/ringbuffer.c')])
p('R02', 'Simple ring buffer is a bounded FIFO stream from every offset',
  '''Whatever the sequence of writes, reads, peeks, discards and clears, the simple ring buffer delivers exactly the bytes that were written, in order, each once; the readable and writable amounts are exact at every moment, an operation transfers exactly the amount it reports,
  and nothing outside the buffer is touched.''',
  ['inputs', 'histories', 'fault_sequences'], 'operation sequences of any lengths and contents starting at every offset; refused memory at creation', 'The repository has no test of wrap positions of this buffer.',
  ['src/ring/ring_buf.c', 'inc/ring/ring_buf.h'], [('head/tail offsets', 'src/ring/ring_buf.c')])
p('R03', 'Auto-cover buffer returns the newest data at the asked stream position',
  '''Writing never fails for lack of room: old data is covered. A read at a stream position returns exactly the bytes that were written there as long as they are still held, reports covered positions and positions with too little data as such, never delivers other bytes, and never touches memory outside the buffer.''',
  ['inputs', 'histories', 'fault_sequences'], 'write/read sequences with any lengths, contents and read positions; refused memory at creation', 'The test uses one writer and one reader in step; covered positions, oversize writes and positions at the edges are not sampled.',
  ['src/ring/autocover_buffer.c', 'inc/ring/autocover_buffer.h'], [('stream positions over a ring', 'src/ring/autocover_buffer.c')])
p('R04', 'One producer and one consumer thread never lose, tear or duplicate data',
  '''With one writing and one reading thread, whatever the interleaving of their operations, including in the middle of a data copy, the reader of a ring buffer, a message queue or a fixed message queue sees exactly a prefix of what was written, in order and intact, never data still being written,
  and the writer never overwrites data not yet read.''',
  ['inputs', 'schedules'], 'interleavings in which one side is interrupted before, within or after each of its copies by whole operations of the other side; every content, length and (for the ring) counter value', 'Tests run two threads under whatever schedule the machine picks; a publication order error shows only when a switch falls between the copy and the counter update.',
  ['src/ring/ringbuffer.c', 'src/ring/msg_queue.c', 'src/ring/fixed_msg_queue.c'], [('copy before publishing the counter', 'src/ring/ringbuffer.c'), ('message header before body', 'src/ring/msg_queue.c')],
  note='bounded model checking of whole-operation preemptions at the copy boundaries under sequential consistency; weak-memory reordering and preemption by partial operations are outside')
p('Q01', 'Message queue delivers whole messages in order or changes nothing',
  '''Pushed messages of any size come out whole, unchanged and in the order they went in, each once. A push that does not fit is refused and changes nothing; a pop with a buffer that is too small is refused, tells the size that is needed and keeps the message; and a pop tells the size of the message it delivered.''',
  ['inputs', 'histories', 'fault_sequences'], 'push/pop/clear sequences with every message length, content, buffer size and start offset', 'The test pushes few fixed messages through a large queue; wrapping in the middle of a header or body and short buffers are not tried.',
  ['src/ring/msg_queue.c', 'inc/ring/msg_queue.h'], [('length header followed by body in a ring', 'src/ring/msg_queue.c')])
p('Q02', 'Fixed-size message queue is a bounded FIFO of whole messages',
  '''Messages come out whole, unchanged, in order and once each; a push succeeds exactly while there is a free slot and a pop exactly while there is a message, the two reported amounts are exact at every moment, and clearing leaves an empty, usable queue.''',
  ['inputs', 'histories', 'fault_sequences'], 'push/pop/clear sequences for several message sizes (including ones that do not divide the ring) and start slots, any content; refused memory', 'The test uses one message size from a fresh queue; sizes that do not divide the ring wrap in the middle of a message.',
  ['src/ring/fixed_msg_queue.c', 'inc/ring/fixed_msg_queue.h'], [('slots over a byte ring', 'src/ring/fixed_msg_queue.c')])
p('Q03', 'Message handlers process every accepted message once, in order, then stop',
  '''A message accepted by a message queue handler is handled exactly once, unchanged and in order of acceptance, on the worker thread between its ready and stop notices, and the worker never goes to sleep while an accepted message is unhandled. Messages cleared before they are handled are not delivered.
  After a callback failure the worker stops and further messages are refused; destroying the handler wakes, stops and joins the worker and releases everything, also when creation fails half way.''',
  ['inputs', 'schedules', 'fault_sequences'], 'user operation scripts with every choice of preemption points around the worker, callback failing at a chosen message, refused memory or thread at every point', 'Tests push a few messages and sleep; a lost wake-up or a stop in the middle depends on the schedule.',
  ['src/ring/msg_queue_handler.c', 'src/ring/fixed_msg_queue_handler.c'], [('semaphore per message, exit flag, token for cleared messages', 'src/ring/fixed_msg_queue_handler.c'), ('pop, grow buffer, retry', 'src/ring/msg_queue_handler.c')],
  note='bounded model checking with the worker run as a function that the user preempts at its callbacks and sleeps; payload capacity of the fixed variant reduced to 4 bytes')
p('M01', 'Memory pool blocks never overlap, are never lost, and freed memory merges',
  '''Whatever the sequence of allocations, frees and resizes in a pool, every block lies inside the pool, has the announced size, never overlaps another live block and keeps its content until it is freed, resizing keeps the common part, and zeroed allocation is zeroed.
  A request fails only when no free block of the needed size can be made, and once everything is freed the whole pool can be allocated again.''',
  ['inputs', 'histories'], 'operation scripts over pools of several sizes, every request size and content', 'The test allocates a few fixed sizes; buddy splitting, merging and exhaustion depend on the history.',
  ['src/mem/mplite.c', 'inc/mem/mplite.h'], [('buddy allocator with free lists per order', 'src/mem/mplite.c')])
p('M02', 'Allocation helpers keep contents, and the tracker reports leaks and overruns',
  '''Allocation, zeroed allocation, duplication and resizing through the library give usable memory of the asked size with the right content, a size that overflows or refused memory gives a clean failure which leaves the old block intact, and everything freed is returned.
  With tracking on, the number of live blocks is always exact, a write next to a block and a free of something that is not a live block are reported, and correct use is never reported.''',
  ['inputs', 'histories', 'fault_sequences'], 'operation scripts over the whole allocation interface with any content, overflowing sizes, refused memory and each kind of misuse', 'Tests run correct use with plenty of memory; refused memory, overflowing sizes and misuse cannot be provoked from them.',
  ['src/mem/allocator.c', 'src/mem/allocation_tracker.c', 'inc/mem/allocator.h'], [('canaries around tracked blocks', 'src/mem/allocation_tracker.c')])
p('S01', 'String helpers do what they document and stay inside their buffers',
  '''Bounded copy and append always terminate and report the length they tried to make; replacing replaces every occurrence of the pattern and nothing else; splitting gives exactly the non-empty pieces in order up to the room given; trimming removes exactly the given characters at both ends;
  code points are counted within the limit; and a hex dump shows every byte that fits. None of them reads past its input or writes past its output.''',
  ['inputs', 'fault_sequences'], 'every text, pattern, set and buffer size up to the bound, refused memory', 'Tests use one example per function; empty patterns, missing terminators and exact fits are the cases that break.',
  ['src/mem/strings.c', 'inc/mem/strings.h'], [('bounded string loops', 'src/mem/strings.c')])
p('S02', 'String builder accumulates exactly what was appended, whatever fails',
  '''After any sequence of appended characters, texts, limited texts and formatted texts the builder holds exactly their concatenation, terminated, with the exact length, no matter how often it had to grow. A limited append takes at most the limit and never looks behind it or behind the end of the text.
  When memory is refused or a format fails, the append reports failure and the builder is unchanged, and destroying it releases everything.''',
  ['inputs', 'histories', 'fault_sequences'], 'operation scripts crossing the growth points from several initial sizes, any bytes, each allocation refused in turn', 'Tests append a few fixed strings with memory available; unterminated pieces, exact fits and refused memory are not tried.',
  ['src/mem/stringbuilder.c', 'inc/mem/stringbuilder.h'], [('grow then append', 'src/mem/stringbuilder.c')])
