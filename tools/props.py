#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note))


REPLAY = 'exhaustive TLC exploration of the TLA+ module; every transition replayed on the real code, random histories recorded and validated against the module with TLC'

FR = ['src/stream/framer.c', 'include/embc/stream/framer.h']
FRAMER = 'TLC checks two communicating endpoints of the TLA+ module over lossy links; transitions replayed on two real framers, random fault histories recorded and validated with TLC'
FNOTE = 'exhaustive for 2-5 frames with 1-4 losses, corruptions or duplicates (real window, id and retry constants); random histories of up to 300 steps with frame id wrap, arbitrary peers, timeouts and retries running out'
prop('C01', 'Frames are delivered once each, in order, with the content that was sent',
     'For every pattern of lost, damaged, duplicated and delayed bytes between two endpoints, each endpoint delivers the frames sent by the other at most once each and in the order they were sent, with the port, message id, port data and payload that were sent. '
     'Frames that arrive after a missing one wait for it (for at most the 800 ms receive timeout, after which they are delivered without it), and this holds across every wrap of the frame id. '
     'A resynchronization request discards what is waiting and continues in order from there, and the link management requests (ping and status) are answered with the content defined for them.',
     ['schedules', 'fault_sequences', 'histories'], 'every interleaving of sends, arrivals, losses, corruption, duplication and timeouts over histories of any length; any peer',
     'test/stream/framer_test.c drives one endpoint with a handful of fixed frames; reordering and duplicate suppression depend on which of the recent frames were lost and on the position in the id space',
     FR, [('receive window and bitmask of recent frames', 'src/stream/framer.c:rx_hook_fn'), ('ordered insertion', 'src/stream/framer.c:rx_insert'), ('receive timeout', 'src/stream/framer.c:timer_callback')],
     observe=['port rx_fn calls and their buffers', 'receive status counters'], technique=FRAMER, note=FNOTE)
prop('C02', 'Every frame sent ends in exactly one truthful completion report',
     'Every frame given to the framer is reported to its port exactly once and, unless it is given up, in the order sent: with success only after the peer has received it, with a timeout or integrity error only after all retransmissions were used, and with aborted when the link is resynchronized. '
     'When losses stop, every outstanding and queued frame is delivered and confirmed, and giving up or aborting one frame never stalls the others. '
     'At most the allowed number of frames awaits acknowledgement at a time, and the completion and retransmission counts match what happened.',
     ['schedules', 'fault_sequences', 'histories'], 'every interleaving of sends, acknowledgements (any mask and status), losses, timeouts and resynchronizations, including sends from inside callbacks',
     'the unit tests confirm single frames and one retransmission; they never exhaust retries, resynchronize with frames queued or send from a callback',
     FR, [('acknowledgement handling, in-order completion', 'src/stream/framer.c:tx_confirmed, tx_complete_in_order'), ('retries', 'src/stream/framer.c:tx_error'), ('abort', 'src/stream/framer.c:tx_purge_queued')],
     observe=['port tx_done_fn calls', 'transmit status counters'], technique=FRAMER, note=FNOTE)
prop('C03', 'Every transmitted data frame is well formed and right for its turn',
     'Whenever the framer hands a data frame to the hardware layer, it is byte for byte the documented format: start byte, data type and consecutive frame id, port, message id, payload length, port data, header check, payload, little-endian frame check and end byte, for every payload of 0 to 240 bytes and whichever way the payload was supplied. '
     'A retransmission repeats the original bytes, and frames are transmitted when the window, acknowledgements, refusals and timeouts require it and at no other time, never beyond the retry limit.',
     ['inputs', 'histories', 'schedules'], 'every payload, header value and buffer kind, and every history that leads to a transmission or retransmission',
     'tests compare a few short frames; length limits, buffer copying, id wrap and retransmission content are not covered',
     FR, [('frame construction', 'src/stream/framer.c:embc_framer_send, embc_framer_construct_frame'), ('retransmission', 'src/stream/framer.c:transmit_tx_buf')],
     observe=['buffers passed to the HAL tx_fn'], technique=FRAMER, note=FNOTE + '; frames encoded by the module bit by bit from the polynomials')
prop('C04', 'The receiver finds every valid frame in any byte stream, and nothing else',
     'For every byte stream, delivered in pieces of any size, the receiver recovers exactly the frames that a search of the stream from left to right finds: a start byte, a valid header with a permitted length and a matching frame check; noise, damaged frames and cut frames never hide a later complete frame or one contained in them, and never stop or overrun the receiver. '
     'Each loss of synchronization after a good frame is refused once, naming the frame when its header was valid and otherwise in general, and counted once.',
     ['inputs', 'fault_sequences'], 'every byte stream and every division of it into calls',
     'tests feed a few single-frame corruptions; how the search continues after a recovered frame, or at the end of the buffer, needs specific byte alignments',
     FR + ['include/embc/stream/framer_util.h'], [('state machine', 'src/stream/framer.c:embc_framer_hal_rx_byte'), ('search for the next frame', 'src/stream/framer.c:framer_resync'), ('validation', 'src/stream/framer.c:embc_framer_validate')],
     observe=['frames passed to the receive hook', 'general and integrity refusals', 'status counters'],
     technique='TLC proves incremental deframing equal to a whole-stream search on the TLA+ module; all chunk sequences replayed on the real framer, random streams recorded and validated with TLC',
     note='all sequences of 3 (model: 4) out of 13 kinds of chunk; random streams of frames, nested, cut and damaged frames and noise')
prop('C05', 'Acknowledgements tell the peer exactly what was received',
     'Every data frame that arrives intact for a valid port is acknowledged, exactly once per arrival and even when it is a duplicate, with its own id, port and message id, status success, and a bit mask of which of the neighbouring frames have been received. '
     'A frame whose header is intact but whose content is damaged is refused with a message integrity status and its id; acknowledgements themselves and frames for ports that do not exist are never acknowledged.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of arriving frames: in order, ahead, behind, repeated, far off, damaged, and any id wrap',
     'tests check the acknowledgement of a few in-order frames; mask contents after gaps, late frames and wraps are not covered',
     FR, [('acknowledgement construction', 'src/stream/framer.c:send_frame_ack, embc_framer_construct_ack'), ('mask of recent frames', 'src/stream/framer.c:rx_hook_fn')],
     observe=['acknowledgement frames passed to the HAL tx_fn'], technique=FRAMER, note=FNOTE)
prop('C06', 'Frame buffers have one owner at a time and none is ever lost',
     'While the hardware layer owns a buffer that it was given to transmit, the framer does not change, free or hand out that buffer again, whatever acknowledgements, timeouts, aborts or duplicates happen meanwhile. '
     'Every buffer is returned to the allocator exactly once: at any time the buffers in use are exactly those of frames waiting, awaiting acknowledgement, owned by the hardware layer or held by the application, plus one for receiving. '
     'No sequence of arriving bytes and calls exhausts, leaks or corrupts the buffers.',
     ['histories', 'schedules', 'fault_sequences'], 'every interleaving of hardware completions with acknowledgements, timeouts, retransmissions, resynchronization and received frames of any kind',
     'tests complete transmissions at once, so that ownership conflicts never arise, and do not count buffers on the error paths',
     FR, [('ownership of transmit buffers', 'src/stream/framer.c:embc_framer_hal_tx_done, tx_complete_buffer'), ('received frames', 'src/stream/framer.c:rx_hook_fn, rx_purge_queued')],
     observe=['buffer contents between tx_fn and embc_framer_hal_tx_done', 'free buffers of the allocator', 'fatal handler'], technique=FRAMER, note=FNOTE)
prop('C07', 'The timer is always set for the earliest thing that is waiting',
     'Whenever frames await acknowledgement or received frames wait for a missing one, exactly one timer is set, for the earliest of 250 ms after the last transmission of each unacknowledged frame and the 800 ms receive timeout; otherwise none needs to fire. '
     'A timer is never set while another is set, never cancelled unless it is set, and its expiry, however late, acts on everything that is due at that time and on nothing else.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of sends, acknowledgements, arrivals, late and punctual expiries',
     'tests never run two deadlines concurrently or expire a timer late',
     FR, [('one timer for all deadlines', 'src/stream/framer.c:timer_schedule'), ('expiry', 'src/stream/framer.c:timer_callback')],
     observe=['timer_set_fn and timer_cancel_fn calls'], technique=FRAMER, note=FNOTE)
prop('C08', 'Linked lists keep every item exactly once, in order',
     'After any sequence of list operations (add at either end, remove at either end, insert before or after an item, replace-free removal of an item, append of one list to another), walking a list forwards yields exactly the items the operations imply, each once and in order, and walking it backwards yields the reverse; an item is never in two lists. '
     'Length, emptiness, membership, index and item-by-index queries agree with that sequence, and removing from an empty list yields nothing. '
     'The unsafe and safe iterators visit the same sequence, and the safe ones still visit every remaining item when the visited item is removed during the walk.',
     ['histories', 'inputs'], 'every sequence of list calls over any number of lists and items, including self-adjacent insertions, re-adding an item that is already in a list, empty and single-item lists',
     'test/collections/list_test.c runs a few fixed sequences on one list; forward and backward links, re-insertion and empty sources are wrong only for specific combinations of calls',
     ['include/embc/collections/list.h', 'src/collections/list.c'],
     [('links are rewritten in both directions by every insertion and removal', 'include/embc/collections/list.h:embc_list_add_head..embc_list_append'),
      ('iteration macros', 'include/embc/collections/list.h:embc_list_foreach*')],
     observe=['embc_list_* return values', 'forward and backward walks'],
     technique=REPLAY, note='exhaustive for 2 lists x 3 items (all transitions replayed); random histories up to 4 lists x 12 items')
prop('C09', 'Integer map behaves as a map for every history of puts and removes',
     'After any sequence of insertions, replacements, lookups and removals, a lookup returns the value most recently stored under that key, or not-found when the key is absent; the reported length is the number of stored keys, the previous value is reported on replacement and removal, and this holds across every internal growth. '
     'An iterator visits every entry that is present when it is created and still present when its turn comes, exactly once, with its current value, never returns a removed entry, and then ends; entries may be removed while iterating. '
     'Freeing the map returns all memory it allocated, however it was used.',
     ['histories', 'inputs'], 'every sequence of put/get/remove/iterate/free over arbitrary integer keys (including keys that share bins and negative or huge keys)',
     'test/collections/intmap_test.c checks single operations, one growth and one iteration with no shared bins',
     ['src/collections/intmap.c', 'include/embc/collections/intmap.h', 'include/embc/collections/intmap.inc'],
     [('bins of linked entries, growth by rehash', 'src/collections/intmap.c:intmap_resize'), ('iterators registered with the map', 'src/collections/intmap.c:embc_intmap_iterator_*')],
     observe=['embc_intmap_* return codes and values', 'outstanding allocations'],
     technique=REPLAY, note='exhaustive over 3 keys, 2 iterators; growth explored by directed and random histories up to ~600 keys')
prop('C10', 'String map and hash map behave as maps, whatever the hash says',
     'After any sequence of insertions, replacements, lookups and (for the string map) removals, a lookup returns the value most recently stored under an equal key, or reports absence; keys are equal by content or by the caller-supplied equivalence, even when all hashes collide. '
     'Replacement and removal report the previous value and the length is the number of distinct keys. '
     'Freeing a map returns all memory it allocated.',
     ['histories', 'inputs'], 'every sequence of operations, every hash function (constant, sparse, adversarial) and any key set, across growth',
     'test/collections/strmap_test.c and hashmap_test.c check one or two keys without collisions or growth',
     ['src/collections/strmap.c', 'src/collections/hashmap.c', 'include/embc/collections/strmap.h', 'include/embc/collections/hashmap.h'],
     [('chained bins plus equality callback', 'src/collections/hashmap.c:embc_hashmap_put/embc_hashmap_get'), ('string interning into the map', 'src/collections/strmap.c')],
     observe=['return values', 'outstanding allocations'],
     technique=REPLAY, note='exhaustive over 3 keys x 5 hash functions; random histories up to 200 keys; hash map removal and iteration are declared but not implemented in the repository')
prop('C11', 'Fixed-block pool hands out disjoint aligned blocks and never loses one',
     'A pool created for N blocks lets exactly N blocks be outstanding at any time: an allocation succeeds if and only if fewer than N are outstanding, and otherwise the safe variant stops fatally and the unsafe variant returns null. '
     'Outstanding blocks are pointer-aligned, inside the memory the pool was given and disjoint from each other and from the pool\'s own bookkeeping, so their contents survive every other call; a freed block becomes available again. '
     'The emptiness query reports exactly whether no block is available. A pool that is finalized can have its memory, whatever it holds, initialized as a new and full pool.',
     ['histories', 'configurations'], 'every allocate/free order, every block count and block size',
     'test/memory/pool_test.c uses one size and count and a short fixed order',
     ['src/memory/pool.c', 'include/embc/memory/pool.h'],
     [('free list through the blocks', 'src/memory/pool.c'), ('size rounding', 'src/memory/pool.c:embc_pool_instance_size/initialize')],
     observe=['returned pointers relative to the instance', 'contents of outstanding blocks', 'fatal handler'],
     technique=REPLAY, note='exhaustive for up to 4 blocks and 5 handles; random histories for 18 block sizes up to 256 and up to 100 blocks')
prop('C12', 'Reference-counted objects return to their own pool exactly at zero',
     'An object taken from a pool starts with one reference; it stays allocated, and its contents are preserved, while references remain, and the destructor runs exactly once on it and it returns to the pool it came from exactly when the last reference is dropped. '
     'The constructor runs exactly once on each object handed out, which arrives zero-filled if there is none; a pool holds at most its configured number of outstanding objects and exhausting it is fatal. '
     'The count never wraps: raising it beyond its maximum is fatal, and so is raising or dropping the count of an object after it reached zero, until that object is handed out again. Finalizing a pool and initializing its memory again makes a full pool of the new size without calling constructors or destructors and without touching another pool.',
     ['histories', 'configurations'], 'every order of allocate/increment/decrement over several pools, with and without constructors and destructors, all sizes',
     'test/memory/object_pool_test.c drives one pool with one object through one short life',
     ['src/memory/object_pool.c', 'include/embc/memory/object_pool.h'],
     [('header with back pointer and count before each object', 'src/memory/object_pool.c')],
     observe=['constructor/destructor calls', 'returned pointers', 'fatal handler'],
     technique=REPLAY, note='exhaustive for 2 pools of up to 2 objects and 3 handles; random histories with larger pools and counts up to saturation')
prop('C13', 'Block allocator never overlaps live allocations and finds any free run',
     'A variable-size allocation over fixed-size blocks returns a block-aligned run inside the managed memory that overlaps no live allocation, so the contents of live allocations survive every call; it succeeds if and only if some run of contiguous free blocks is long enough, otherwise the unsafe variant returns null and the safe one stops fatally. '
     'Freeing an allocation makes exactly its blocks available again. Misuse stops fatally and changes nothing: a size that is not positive, or freeing memory that is outside or not allocated. Finalized and initialized again over the same memory, the allocator has every block free.',
     ['histories', 'inputs', 'configurations'], 'every allocate/free order, sizes from one byte to the whole memory, every block size and memory size',
     'test/memory/block_test.c allocates a handful of blocks in one geometry',
     ['src/memory/block.c', 'include/embc/memory/block.h'],
     [('allocation bit map', 'src/memory/block.c')],
     observe=['returned pointers', 'contents of live allocations', 'fatal handler'],
     technique=REPLAY, note='exhaustive for up to 5 blocks; random histories over many geometries (block counts crossing bit-map word boundaries)')
prop('C14', 'Message-buffer allocator hands out distinct, large-enough, empty buffers',
     'A request for a buffer of a given size returns an empty buffer of the smallest size class that holds it, disjoint from every outstanding buffer, exactly when that class has a buffer left; with the class exhausted the unsafe variant returns null and the safe one stops fatally, and a request that is not positive or exceeds the largest class stops fatally. '
     'A freed buffer returns to its own class and is handed out empty again, with no reserve, cursor or owner left over from its earlier use; contents of outstanding buffers survive every other call. This holds for an allocator in caller-provided memory, in memory it allocates itself, and one initialized again after every buffer was returned.',
     ['histories', 'inputs', 'configurations'], 'every allocate/use/free order, every request size, every size-class configuration',
     'test/memory/buffer_test.c allocates a few sizes in one configuration',
     ['src/memory/buffer.c', 'include/embc/memory/buffer.h'],
     [('per-class pools chosen by leading-zero count', 'src/memory/buffer.c:embc_buffer_alloc')],
     observe=['returned buffers, their capacity, length, cursor and reserve', 'fatal handler'],
     technique=REPLAY, note='exhaustive for small class tables; random histories for up to 5 classes with every request size near a boundary')
prop('C15', 'Message buffer reads and writes match a bounded byte sequence with cursor',
     'After any sequence of writes, reads, seeks, erases, copies, integer and string accesses, the contents, length, cursor and the remaining read and write space are those of a plain byte sequence bounded by capacity minus reserve; multi-byte integers appear in the declared byte order and read back unchanged. '
     'Access that would pass the end of the data (read, seek, erase, copy) or of the writable space (write) stops fatally and changes nothing; a string or bounded write that does not fit is truncated and reported, and never touches a byte outside the buffer.',
     ['histories', 'inputs'], 'every operation sequence, every length, cursor, reserve and operand including both ends of each range',
     'test/memory/buffer_test.c covers each accessor once at one cursor; overlap, overwrite in the middle, reserve and exact-fit cases are not reached',
     ['src/memory/buffer.c', 'include/embc/memory/buffer.h'],
     [('bounds assertions before each access', 'include/embc/memory/buffer.h'), ('erase/copy/write_str', 'src/memory/buffer.c')],
     observe=['complete buffer state after each call', 'fatal handler'],
     technique=REPLAY, note='exhaustive for capacity 4 (thorough 5, with two buffers); random histories for capacities up to 256')

prop('C16', 'Events fire exactly once, in time order, never early, never after cancel',
     'Scheduling a callback for a positive time returns a nonzero id distinct from every other pending id; a time that is not positive schedules nothing and returns zero; a cancelled event never fires, and cancelling an id that is not pending changes nothing. '
     'Processing at time t invokes exactly the pending events due at or before t, each exactly once with its own id and user data, in order of due time and, among equal times, in the order scheduled; nothing fires early and no event is lost; the return value is the number invoked, and all of this holds when callbacks themselves schedule, cancel or query events, and events that they schedule as already due also fire before processing returns. '
     'The next-time query returns the earliest pending due time, or the minimum time if none is pending; the interval query returns the time remaining until then, zero if already due, -1 if none is pending, and freeing the manager releases all memory it allocated.',
     ['histories', 'inputs', 'schedules'], 'every sequence of schedule/cancel/process/query calls, from outside and from inside callbacks, with any times (equal, far apart, 64-bit)',
     'test/event_manager_test.c schedules a few events in fixed order and its callbacks never call back into the manager',
     ['src/event_manager.c', 'include/embc/event_manager.h'],
     [('sorted pending list, insertion after equal times', 'src/event_manager.c:embc_evm_schedule'), ('processing loop', 'src/event_manager.c:embc_evm_process'), ('cancel moves the node to the free list', 'src/event_manager.c:embc_evm_cancel')],
     observe=['callback invocations (order, id, user data)', 'return values', 'outstanding allocations'],
     technique=REPLAY, note='exhaustive for 3 events over 3 times with callbacks that schedule or cancel; random histories with nested calls and 64-bit times')
prop('C17', 'State machine takes the first matching transition and runs to completion',
     'For each event the transition table is searched from its start and the first row matching the current state and the event (a wildcard state or event matches any) decides: its handler runs once and its return value may accept the transition, suppress it, skip to the next matching row, or select another target state. '
     'When a transition is taken, the exit handler of the old state runs, then the current state changes, then the enter handler of the new state runs, each exactly once; an event that matches no row changes nothing; events raised from inside any handler are queued and handled in order only after the current event has completed; at least seven can be queued and exceeding the queue stops fatally instead of losing an event. '
     'Initialization starts from no state with an empty queue and raises the reset event; if that leaves no valid state, or a state table entry is not at its own index, it stops fatally. The log shows every transition taken and every unmatched event, in order, with the names of machine, states and event.',
     ['histories', 'configurations'], 'every transition table, handler result and event sequence, including events raised inside handlers',
     'test/fsm_test.c drives one two-state table through a few events',
     ['src/fsm.c', 'include/embc/fsm.h'],
     [('table search', 'src/fsm.c:embc_fsm_event'), ('event queue and processing flag', 'src/fsm.c')],
     observe=['handler invocations in order', 'current state', 'fatal handler'],
     technique=REPLAY, note='exhaustive for small tables; random tables with up to 4 states, 5 events, 8 rows and scripted handlers')
prop('C18', 'Command line input becomes exactly the commands typed, or an error',
     'Whatever characters arrive, in whatever order, each line end (carriage return, line feed or the pair) yields exactly one line, equal to what was typed after backspace and delete editing, with surrounding and repeated white space removed and comments dropped; an empty or comment-only line executes nothing, a line is passed to the caller\'s handler exactly once with the caller\'s cookie, and a line longer than the line buffer is reported as too long and never executed, in whole or in part. '
     'Echo reproduces accepted characters, nothing, or the configured character, and the prompt and the result text (OK or the error) follow each line as configured. '
     'The argument parser splits a line at spaces, tabs and commas into at most its limit of arguments, in order, each NUL-terminated and never reading beyond the line, and reports an error rather than executing with a truncated argument list.',
     ['inputs', 'histories'], 'every character sequence, line length, echo/verbosity setting and handler result',
     'test/cli_test.c types a handful of short lines; editing, overlong lines, comments in odd places and many arguments are not reached',
     ['src/cli.c', 'include/embc/cli.h'],
     [('character handling and editing', 'src/cli.c:embc_cli_process'), ('argument splitting', 'src/cli.c:embc_cli_line_parser')],
     observe=['executed command and arguments', 'characters printed', 'return values'],
     technique=REPLAY, note='exhaustive over a reduced alphabet and buffer; random character streams and lines against the full-size configuration; NUL characters excluded')
prop('C19', 'Streams deliver the producer\'s bytes in order, complete or with an error',
     'A stream source connected to a stream sink through any channel that keeps message order, immediate or delayed, delivers to the receiver exactly the producer\'s bytes, in order, without gaps or duplicates, and ends with success only when all were delivered; otherwise the receiver is told of the failure and holds a correct prefix. '
     'The sink requests data only while the stream is open and never before its previous request was answered, never stores beyond its buffer, and reports an overflow instead of leaving a hole. '
     'The source sends only in reply to a request, never more than was requested nor than the peer\'s transfer unit, echoes the request\'s transaction identifier, and closes the stream exactly once at its end; each side\'s completion callback is invoked once per transfer with the status of that transfer, also when the peer aborts or closes early. Every answer of the sink carries its request\'s transaction identifiers (a no-operation is always answered with success, an open with the non-zero file identifier that the sink\'s requests then carry), an open carries the application\'s argument, a source can be given another file for its next open, the close function sends one close with its identifier and status, and an absent callback or producer is simply not called.',
     ['histories', 'inputs', 'schedules'], 'every transfer length, buffer size, transfer unit, delivery interleaving and peer behaviour (including a foreign peer that aborts or overruns)',
     'test/stream tests use one length and buffer size with a scripted peer and no delayed delivery',
     ['src/stream/async_sink.c', 'src/stream/async_source.c', 'src/stream/async.c', 'include/embc/stream/async.h', 'include/embc/stream/async_sink.h', 'include/embc/stream/async_source.h'],
     [('sink state machine', 'src/stream/async_sink.c'), ('source state machine', 'src/stream/async_source.c')],
     observe=['every transaction on the channel', 'received bytes', 'completion callbacks'],
     technique=REPLAY, note='exhaustive (with termination under fairness) for transfers up to 4 bytes over delayed channels; random transfers up to 400 bytes and foreign peers')

prop('C20', 'Pattern test data: exact transmission, exact loss and duplicate accounting',
     'The transmitter produces the documented pattern (walking bit and complemented counter, interleaved, period 4325376 words) for every mixture of single-word and buffer calls of any size, and a receiver that is fed consecutive pattern words from any position reports no error once two of them have arrived. '
     'Each jump in the stream that is followed by at least three in-order words is counted as one error and one resynchronization, and adds exactly its length to the missing count if it is a skip of up to half the period, or to the duplicate count otherwise; counts accumulate over any number of jumps and start from zero at initialization. '
     'A word that is not part of the pattern is counted as an error and never synchronizes the receiver; the receive count is the number of words given.',
     ['inputs', 'histories'], 'every start position, every sequence of jumps over the whole period, every word value and every split into calls',
     'test/pattern_32a_test.c tries a few dozen jumps with one jump each, mostly near the start of the pattern',
     ['src/pattern_32a.c', 'include/embc/pattern_32a.h'],
     [('resynchronization from two words', 'src/pattern_32a.c:resync'), ('interleaved buffer fill', 'src/pattern_32a.c:embc_pattern_32a_tx_buffer')],
     observe=['generated words', 'the public counters of the receiver'],
     technique=REPLAY, note='exhaustive for streams of up to 13 words, 2 breaks, 13 jump lengths, 5 starts at full size (and every jump of a reduced period in the thorough tier); random streams over the full period')
prop('C21', 'LFSR generator has full period and its follower never accepts a wrong byte',
     'From any nonzero seed the generator steps through the maximal-length sequence of x^16+x^14+x^13+x^11+1, visiting all 65535 nonzero values; a zero seed is replaced and the register never sticks at zero, and the 1, 8, 16 and 32 bit outputs are consistent views of that one sequence. '
     'A follower fed from any point of a sequence is in step after two bytes and from then on returns success for exactly the byte that the sequence continues with; any other byte returns an error, is counted, and restarts synchronization from that byte, so that after an isolated corrupted byte it is in step again, with exactly two errors counted.',
     ['inputs', 'histories'], 'every register value, every byte stream with corruption, loss and repetition at any place',
     'test/lfsr_test.c checks the length once and one corrupted byte of one stream',
     ['src/lfsr.c', 'include/embc/lfsr.h'],
     [('feedback', 'src/lfsr.c:embc_lfsr_next_u1_inner'), ('follower', 'src/lfsr.c:embc_lfsr_follow_u8')],
     observe=['return values', 'error_count'],
     technique='TLC checks period and resynchronization on the TLA+ module; the real generator (full period) and follower are validated against the module with TLC',
     note='single-bit output over the full period, wider outputs from sampled (thorough: all) register values; random follower streams')

prop('C22', 'CRC values are those of the defined codes for every input and every division',
     'For every byte sequence and every starting value, embc_crc_ccitt_8, embc_crc_ccitt_16 and embc_crc32 return the value defined by their polynomial (reflected 0xE0; 0x1021 most significant bit first; reflected 0xEDB88320), starting from the complement of the given value and complementing the result. '
     'Computing a sequence in pieces, each call continuing from the previous result, gives the value of the whole sequence however it is divided; no data leaves the value unchanged, and no byte outside the given range is read. '
     'The defined codes detect every burst of damage up to their width and any two damaged bits of a short message.',
     ['inputs'], 'every byte sequence of any length, every starting value and every division into calls',
     'test/crc_test.c compares seven short messages; register values, long inputs and unusual divisions are not reached',
     ['src/crc.c', 'include/embc/crc.h'], [('shift registers', 'src/crc.c')], observe=['return values'],
     technique='TLC checks chaining, linearity and burst detection on the TLA+ module; its streams are replayed on the real functions, register tables and random streams are recorded and validated with TLC',
     note='exhaustive single steps for the 8 and 16 bit codes (16 bit: every register, three bytes; thorough all residues), a register basis with every byte for the 32 bit code, lengths beyond 65536')
prop('C23', 'Text conversions accept exactly valid text, and never write out of bounds',
     'Conversion of a text to an unsigned, signed or scaled integer succeeds for every number in range, with any white space around it, and yields exactly its value (decimal, or hexadecimal after 0x; for scaled conversion the value times ten to the exponent, excess digits dropped and missing ones taken as zero); a text that is not a number is refused, and a refused text leaves the caller\'s variable unchanged. '
     'Boolean and table conversions accept exactly the defined words (boolean ones in any case) and the first table entry that equals the text. '
     'Copying stores the longest prefix that fits with its terminating NUL, reports truncation, and writes nothing beyond the target; comparison ignores case and orders by the upper-case characters, a prefix being smaller; prefix matching, upper-casing and hexadecimal digits are exact.',
     ['inputs'], 'every text, every exponent, every target size and every table',
     'test/cstr_test.c tries one to seven texts per function; signs, white space, digits next to the range limits and malformed numbers are not reached',
     ['src/cstr.c', 'include/embc/cstr.h'], [('number parsing', 'src/cstr.c:embc_cstr_to_u32, embc_cstr_to_i32s'), ('bounded copy', 'src/cstr.c:embc_cstr_copy')],
     observe=['return values and output variables'],
     technique='TLC checks laws of the conversions on the TLA+ module over all short texts; those texts are run through the real functions, random texts are recorded, and all are validated with TLC',
     note='all texts of up to 4 characters over an alphabet of 11 (model: 5), random texts next to every limit; numbers out of range, "0X" and white space after a sign are left open')

prop('C24', 'Time conversions are exact: nearest, up or down as named, and inverse',
     'A 34Q30 time converted to counter ticks of any positive frequency (any integer expression) is the nearest tick (ties upwards), the smallest tick not below it or the largest not above it, as the name says, for negative times as well; second, milli-, micro- and nanosecond conversions are the nearest at their frequency; a tick count converted to a time is cut off towards zero and, at frequencies below half the resolution, converts back to the same count. '
     'A double keeps every time below 2^53 exactly, a conversion from floating point is cut off towards zero, and the defined constants are exactly the stated multiples of a second. '
     'This holds whenever the exact product fits in 64 bits.',
     ['inputs'], 'every 64-bit time, every frequency and every tick count whose product fits 64 bits',
     'test/time_test.c tries a few values around one second; negative times, large times, odd frequencies and exact ties are not reached',
     ['include/embc/time.h'], [('to ticks', 'include/embc/time.h:EMBC_TIME_TO_COUNTER, EMBC_TIME_TO_COUNTER_ROUND_UP, EMBC_TIME_TO_COUNTER_ROUND_DOWN'), ('from ticks', 'include/embc/time.h:EMBC_COUNTER_TO_TIME')],
     observe=['values of the macros'],
     technique='TLC checks uniqueness, order and inverse laws of the TLA+ definitions on a small fixed point format; the same definitions over 140-bit integers written in TLA+ validate recorded conversions of the real macros with TLC',
     note='model: all times and frequencies of a 4-fraction-bit format; code: those times and random ones next to every tie, power of two and limit; products beyond 64 bits are left open')

prop('C25', 'Byte buffer encoding is exact, in the named order, and touches only its bytes',
     'Encoding an 8, 16, 32 or 64-bit value stores exactly its bytes in the named order at the given place, and changes no other byte; decoding returns exactly the value stored there, reads no other byte and changes none. The cursor functions advance their cursor by exactly the width. Decoding after encoding in the same order returns the value, for every value and every place.',
     ['inputs', 'histories'], 'every value, width, order, place and sequence of operations',
     'test/bbuf_test.c encodes one value per width; sign extension of single bytes, neighbouring bytes and interleaved cursors are not reached',
     ['include/embc/bbuf.h'], [('macros', 'include/embc/bbuf.h:EMBC_BBUF_ENCODE_U16_BE to EMBC_BBUF_DECODE_U64_LE'), ('cursor functions', 'include/embc/bbuf.h:embc_bbuf_unsafe_encode_u8 to embc_bbuf_unsafe_decode_u64_le')],
     observe=['the whole buffer, the cursors and the decoded values after every operation'],
     technique='TLC checks round trip, order and frame laws on the TLA+ memory model; every transition of its graph is replayed through the real functions, further runs are recorded, and all are validated with TLC under AddressSanitizer',
     note='model: memories of 3 to 8 bytes; code: every byte value at every position of every width, random runs on 1 to 24 bytes')

prop('C26', 'Diagnostics call exactly the installed handler, once, with the right arguments',
     'A fatal error calls the installed fatal handler exactly once with its user data, file, line and message, or prints "FATAL: file : line : message" when there is none; printing goes to the installed print handler (cut to 8191 characters) or to standard output. '
     'A log statement of any level, with or without arguments, calls the log function exactly once with its level letter, place and text when its level is within both thresholds, and does nothing otherwise. '
     'Each contract or argument check fires for exactly the values its name says: the first as one fatal error, the second by returning the parameter error after one information message; the return, leave and report macros act on exactly the non-zero results. '
     'Allocation and release go to the functions that were set last, once, with the caller\'s size and pointer; a failed allocation and a NULL release are fatal errors; cleared blocks are all zero. Every log level and error code has its own name and text, and any other code is UNKNOWN.',
     ['inputs', 'histories'], 'every order of installing and removing handlers, allocators and levels, every level and threshold, every macro with every value',
     'the tests install one handler and try one passing and one failing value per macro; changing handlers, thresholds, long texts, names of all levels and allocator changes are not reached',
     ['src/lib.c', 'src/log.c', 'src/platform.c', 'src/ec.c', 'include/embc/lib.h', 'include/embc/platform.h', 'include/embc/log.h', 'include/embc/dbc.h', 'include/embc/argchk.h', 'include/embc/assert.h', 'include/embc/cdef.h', 'include/embc/ec.h'],
     [('handlers', 'src/lib.c:embc_lib_fatal_set, embc_lib_print_set, embc_fatal'), ('log filter', 'include/embc/log.h:EMBC_LOG_CHECK_STATIC'), ('allocator', 'src/platform.c:embc_allocator_set, embc_alloc, embc_free')],
     observe=['every call of the user functions with its arguments, standard output, return values'],
     technique='TLC checks on every transition of the TLA+ model that only current handlers are called, and how often; every transition is replayed through the real library, all macros and levels are run over small values, random runs are recorded, and all are validated with TLC',
     note='model: two handlers of each kind, two blocks; code: all macros on -4..4, all levels under all thresholds, texts around the print limit')

prop('C27', 'Integer and memory helpers are exact',
     'Leading zeros of every 32-bit value are counted exactly (32 for zero); rounding to a power of two gives the least one that is not smaller (for 1 to 2^31); rounding up to a multiple gives the nearest multiple away from zero, for any positive multiple (any integer expression) and for negative values; restriction to a range, signum, array size and container lookup from any pointer expression are exact; fill and copy change exactly the named bytes.',
     ['inputs'], 'every 32-bit value, every multiple, every range and every part of a buffer',
     'test/platform_test.c and test/cdef_test.c try single bits and a few small numbers',
     ['include/embc/platform/stdlib.h', 'include/embc/cdef.h'], [('leading zeros', 'include/embc/platform/stdlib.h:embc_clz'), ('multiples', 'include/embc/cdef.h:EMBC_ROUND_UP_TO_MULTIPLE')],
     observe=['return values, whole buffers'],
     technique='TLC checks the defining laws of each helper on the TLA+ module; the real helpers are run over all 16-bit halves, every boundary and random values, and the results validated with TLC against the same module',
     note='leading zeros and powers: all 65536 low halves, a spread of high halves (quick 32 of every 64th); products below 2^31')

prop('C28', 'The Python package does what the C library it wraps does',
     'A Python framer endpoint is a framer: payloads given to send arrive at the peer\'s registered callback once, unchanged and in order, over a line that loses, repeats and damages transmissions; each send is reported to tx_done once with its status; retransmissions and give-ups happen when process() is called after their time; the status counters count the same; ports without a callback are ignored; resync starts over. '
     'A payload longer than 240 bytes raises an exception, and nothing is sent and nothing changes. Memory is given back: an endpoint can go on for ever. '
     'Python buffers read, write, copy, erase and report length, cursor, capacity and truncation as the C buffers do. '
     'PatternTx and PatternRx give the same words, bytes and counts for single words, bytes, lists and arrays of every length. The tables of error codes name every code of the C library by its number, and nothing else.',
     ['inputs', 'histories', 'schedules'], 'every sequence of operations, payload, line fault and time',
     'the Python tests are not run with the others; they send a few short frames on a perfect line and read one buffer',
     ['py/embc/stream/framer.py', 'py/embc/memory/buffer.py', 'py/embc/collections/list.py', 'py/embc/pattern_32a.py', 'py/embc/ec.py', 'py/embc/lib.py', 'src/stream/framer.c', 'src/memory/buffer.c', 'src/pattern_32a.c'],
     [('framer', 'py/embc/stream/framer.py:Framer.send, hal_rx, process, _hal_timer_set, _port_rx'), ('buffer structure', 'py/embc/memory/buffer.py:embc_buffer_s'), ('pattern', 'py/embc/pattern_32a.py:PatternRx.next_buffer')],
     observe=['transmitted bytes, callback arguments, exceptions, status, buffer contents, counts'],
     technique='the Python classes, on a library built from the tree, replay the paths of the TLC graphs of the framer and buffer specifications and random link runs under a controlled clock; TLC validates the recordings against the same TLA+ modules as for the C code',
     note='framer graph tours, random runs of two endpoints with line faults, buffer and pattern runs; exceptions raised by user callbacks are left open')

prop('C29', 'The qualification tool accounts for every ping exactly once',
     'The ping tool sends numbered pings (0 to 255 and round again) with consecutive payloads, in order, never more than three that wait for their response and never more than three that wait for their confirmation, and never more than were asked for; after a ping is given up by the link, none for one second. '
     'Every ping sent is counted exactly once: as completed when it has its response and its confirmation, as a transmit error when the link gives it up, as missing when the response to a later one arrives first, or as timed out when it is not complete five seconds after it was sent. A response counts for the ping with its number and payload only, whatever order responses and confirmations come in; damaged, repeated and unexpected ones count for none. '
     'The tool\'s loop hands every byte that arrives to the framer and every ping to the line, so that over a line that loses, damages or repeats units all pings asked for are accounted for in the end.',
     ['inputs', 'histories', 'schedules'], 'every order of responses, confirmations, errors and time, and every number of pings',
     'there is no test of the tool',
     ['py/bin/framer_qual.py', 'py/embc/stream/framer.py'],
     [('queue', 'py/bin/framer_qual.py:PingQueue.process, rx, tx_done, _ping_rx_resync'), ('loop', 'py/bin/framer_qual.py:MasterFramer.process')],
     observe=['pings handed to the framer, bytes on the line, reported totals'],
     technique='TLC checks the accounting on every state and transition of the TLA+ ping queue; every transition is replayed through the real class, random runs and whole runs of the tool against a peer over a faulty line are recorded, and all are validated with TLC',
     note='model: a few pings in all orders of events and time; code: identifiers modulo 256, runs of up to 1500 events; whole tool: up to 5 pings per run with losses, damage and repeats')

prop('C30', 'The buffer log checker reports exactly the unpaired allocations and frees',
     'Given any log of a program that uses the buffers, the checker reports a line exactly when it allocates an address that was not freed since its last allocation, or frees an address that is not allocated, each once, in order, with the lines of the last allocation and release of that address; and at the end exactly the addresses still allocated. '
     'It understands every allocation and release message that the library prints (both allocation functions), ignores failed allocations and all other lines, and a log whose last line is not finished is read like any other. So for a program that frees each buffer once it reports nothing.',
     ['inputs', 'histories'], 'every log',
     'there is no test of the checker',
     ['py/bin/buffer_log_check.py', 'src/memory/buffer.c'],
     [('checker', 'py/bin/buffer_log_check.py:run'), ('messages', 'src/memory/buffer.c:embc_buffer_alloc, embc_buffer_alloc_unsafe, embc_buffer_free_')],
     observe=['printed reports'],
     technique='TLC checks on all logs of the TLA+ model that the reports are exactly the unpaired lines; every log of the model is given to the checker in the form of the messages the library prints, as are random mixtures with messages of real allocations, and the reports are validated with TLC',
     note='model: all logs of 5 lines over 2 addresses (thorough: 6 over 3); code: those and random logs of up to 100 lines')

NA = []


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                                            'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
    na = [n['property'] for n in NA]
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                     'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                     'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']}
                    for p in sorted(P, key=lambda p: p['id']) if p['id'] not in na],
         'not_applicable': NA,
         'notes': 'Specification: spec/*.tla (TLA+, TLC). See DESIGN.md.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
