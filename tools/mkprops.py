import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
p('C01','Heap allocator: allocate, resize and reclaim deliver real, distinct memory',
 'A successful allocation from the heap allocator yields writable memory of at least the requested size that overlaps no other live block; a failed one reports out-of-memory. A successful resize yields a block of the new size whose leading bytes are the old contents, and a failed resize leaves the original block valid and untouched. Every request made through the generic allocator interface reaches exactly the allocator it was made on, once, with the arguments given, and its status and result come back unchanged.',
 ['inputs','fault_sequences'],'all sizes, all block contents, every point at which the underlying heap may refuse',
 'Tests allocate a handful of small fixed sizes and the heap never refuses; they cannot quantify over sizes, contents and refusals.',
 ['src/allocator/malloc_allocator_create.c','src/allocator/allocator_allocate.c','src/allocator/allocator_reallocate.c','src/allocator/allocator_reclaim.c','src/allocator/allocator_control.c'],
 [('malloc_allocator_allocate/reclaim/reallocate','src/allocator/malloc_allocator_create.c'),('allocator vtable dispatch','src/allocator/allocator_allocate.c')])
p('C02','Bump allocator: every region is in bounds, disjoint and accounted for',
 'Every region handed out by a bump allocator lies wholly inside the memory it was created over and overlaps no region handed out earlier (since the last reset) nor the allocator\'s own bookkeeping. A request that does not fit in what remains is refused with an error, whatever its size, and changes nothing; it never wraps around. Reclaim and resize never disturb other regions.',
 ['inputs','histories'],'all buffer sizes and alignments, all request sizes (including those near the maximum integer), all histories of requests',
 'No finite list of sizes reaches the wrap-around and boundary cases for every buffer; the invariant must hold after every history.',
 ['src/allocator/bump_allocator_create.c'],[('bump_allocator_create / bump_allocator_allocate','src/allocator/bump_allocator_create.c')],
 [('mem_offset','next unallocated offset','src/allocator/allocator_internal.h'),('mem_max','number of bytes in the pool','src/allocator/allocator_internal.h')])
p('C03','Releasing a resource runs its own release exactly once',
 'Releasing any resource through the generic interface invokes the release behaviour that resource was created with, exactly once and with that resource, and returns its status. The resource handle obtained from any typed object designates that same object, so releasing the handle releases the object.',
 ['inputs'],'every resource type in the library and every release status',
 'Tests release sample objects once; that the handle of every type designates the object, for every object and status, is a universally quantified fact.',
 ['src/resource/resource_release.c','src/resource/resource_init.c','src/list/list_resource_handle.c','src/rbtree/rbtree_resource_handle.c','src/fiber/common/fiber_resource_handle.c','src/psock/psock_resource_handle.c'],
 [('resource_release','src/resource/resource_release.c'),('<type>_resource_handle','src/*/*_resource_handle.c')])
p('C04','Creating an object is all-or-nothing under any pattern of failures',
 'Whenever a constructor succeeds, it yields a usable object in its documented initial state whose memory all comes from the given allocator. Whenever any allocation, system call or inner construction step fails, the constructor reports an error, every block, descriptor and inner object it had obtained is given back exactly once, resources passed in by the caller stay the caller\'s, and no object is handed out.',
 ['fault_sequences','inputs'],'every constructor of the library and every combination of its inner steps succeeding or failing',
 'Tests exercise the success path; each failure position needs an injected fault that the tests do not inject.',
 ['src/list/list_create.c','src/rbtree/rbtree_create.c','src/queue/queue_create.c','src/psock/psock_create_from_descriptor.c','src/psock/psock_br_create_from_psock.c','src/fiber/common/fiber_create_for_thread.c','src/fiber/common/fiber_scheduler_create.c','src/message/mailbox_create.c','src/bigint/bigint_create_zero.c'],
 [('cleanup labels of each create function','src/*/*_create*.c')])
p('C05','Releasing an object releases everything it owns exactly once',
 'Releasing a container or composite object releases every resource it owns exactly once and returns every block of its memory to the allocator it came from, so that a successful release leaks nothing and releases nothing twice. When releasing something inside fails, the failure is reported to the caller and nothing already released is touched again. A container left partly cleared by such a failure is still a valid container of what remains.',
 ['fault_sequences','histories'],'every composite type, any contents, every pattern of inner release failures',
 'Leaks and double releases on failure paths are invisible to tests that never make an inner release fail.',
 ['src/list/list_node_release.c','src/list/list_clear.c','src/slist/slist_clear.c','src/rbtree/rbtree_clear.c','src/rbtree/rbtree_delete_nodes.c','src/queue/queue_create.c','src/fiber/common/fiber_scheduler_create.c'],
 [('release methods of each type','src/*/*_release*.c, src/*/*_clear.c')])
p('C06','Doubly linked list behaves as the sequence it stands for',
 'Every operation on a doubly linked list has exactly the effect of the corresponding operation on a sequence of resources: inserting before or after a node, at the head or tail, popping, swapping a child, removing a node and clearing. Afterwards the forward and backward links, the head, the tail and the count agree with that sequence, and elements not named by the operation are untouched. An insertion that fails leaves the sequence unchanged and the resource with the caller.',
 ['inputs','histories','fault_sequences'],'lists of any length, any node position, any allocation failure',
 'Tests check a few short lists; the sequence semantics must hold for any length, any position and any allocation failure.',
 ['src/list/list_append.c','src/list/list_insert.c','src/list/list_insert_head.c','src/list/list_append_tail.c','src/list/list_pop.c','src/list/list_node_cleanup.c','src/list/list_clear.c','src/list/list_node_child_swap.c'],
 [('list node linking','src/list/*.c')],[('head/tail/count','ends and length of the sequence','src/list/list_internal.h')])
p('C07','Singly linked list behaves as the sequence it stands for',
 'Every operation on a singly linked list has exactly the effect of the corresponding operation on a sequence of resources: appending after a node, inserting at the head or tail, popping the head or the element after a node, swapping a child, removing a node and clearing. Afterwards the links, the head, the tail and the count agree with that sequence, and elements not named by the operation are untouched. An insertion that fails leaves the sequence unchanged and the resource with the caller.',
 ['inputs','histories','fault_sequences'],'lists of any length, any node position, any allocation failure',
 'Tests check a few short lists; the sequence semantics must hold for any length, any position and any allocation failure.',
 ['src/slist/slist_append.c','src/slist/slist_insert_head.c','src/slist/slist_append_tail.c','src/slist/slist_pop.c','src/slist/slist_node_next_pop.c','src/slist/slist_node_cleanup.c','src/slist/slist_clear.c','src/slist/slist_node_child_swap.c'],
 [('slist node linking','src/slist/*.c')])
p('C08','Queue delivers resources first-in first-out with exact ownership',
 'Resources appended to a queue are popped in the order they were appended, except that a resource inserted at the front is popped next; each is delivered exactly once and the count is the number still held. Popping an empty queue yields nothing and is not an error. A failed append or insert leaves the resource with the caller and the queue unchanged.',
 ['inputs','histories','fault_sequences'],'queues of any length, any operation history, any allocation failure',
 'Tests push a few items; order and ownership must hold for every history and failure.',
 ['src/queue/queue_append.c','src/queue/queue_insert.c','src/queue/queue_pop.c','src/queue/queue_count.c'],
 [('queue over singly linked list','src/queue/*.c')])
p('C09','Swapping two containers exchanges their contents and leaves both usable',
 'Swapping two lists, two singly linked lists or two trees makes each hold exactly what the other held, in the same order and with the same count. Afterwards both containers remain fully usable and independent: every node belongs to the container it is now in, so later operations and the release of either one never touch the other.',
 ['inputs','histories'],'containers of any size, including empty ones, followed by any operation on either',
 'No test uses a swapped container afterwards or releases the two in different orders.',
 ['src/list/list_swap.c','src/slist/slist_swap.c','src/rbtree/rbtree_swap.c'],[('swap','src/*/[rls]*_swap.c')])
p('C10','Ordered tree behaves as a map ordered by its comparison function',
 'After any history of insertions and deletions, an ordered tree holds exactly the values inserted and not deleted, arranged in the order given by its comparison function, and its count is their number. Lookup and deletion by key find a value with that key whenever one is present and report not-found otherwise, changing nothing. Deletion removes just that one value, handing it to the caller undisturbed when asked and releasing it otherwise, and a failed insertion changes nothing.',
 ['inputs','histories','fault_sequences'],'trees of any shape and size, any keys, any history, any allocation failure',
 'Tests insert a few hand-picked keys; each rebalancing case at each depth and each failure needs its own input.',
 ['src/rbtree/rbtree_insert.c','src/rbtree/rbtree_insert_node.c','src/rbtree/rbtree_insert_fixup.c','src/rbtree/rbtree_find.c','src/rbtree/rbtree_find_node.c','src/rbtree/rbtree_delete.c','src/rbtree/rbtree_remove_node.c','src/rbtree/rbtree_delete_fixup.c','src/rbtree/rbtree_transplant.c'],
 [('insert, find, delete, rotations','src/rbtree/*.c')],[('root/nil/count','tree and its size','src/rbtree/rbtree_internal.h')])
p('C11','Ordered tree stays balanced after every insertion and deletion',
 'After any history of insertions and deletions an ordered tree is a valid red-black tree: the root is black, no red node has a red child, and every path from a node to a leaf passes the same number of black nodes. Hence the height never exceeds twice the logarithm of the size, so lookups stay logarithmic.',
 ['inputs','histories'],'trees of any size and any history of insertions and deletions',
 'Unbalance never shows in functional results; tests do not inspect colours and a few short histories miss most fix-up cases.',
 ['src/rbtree/rbtree_insert_fixup.c','src/rbtree/rbtree_delete_fixup.c','src/rbtree/rbtree_left_rotate.c','src/rbtree/rbtree_right_rotate.c','src/rbtree/rbtree_remove_node.c'],
 [('insert and delete fix-up','src/rbtree/rbtree_insert_fixup.c, src/rbtree/rbtree_delete_fixup.c')])
p('C12','Tree navigation visits every value exactly once in order',
 'Starting at the minimum and taking successors visits every node of an ordered tree exactly once in ascending order and then reports the end; starting at the maximum and taking predecessors does so in descending order. The minimum, maximum, root, parent, left and right of a node are the nodes the tree\'s shape defines, and none of these operations changes the tree.',
 ['inputs'],'trees of any shape and size, any starting node',
 'Tests walk one or two small trees; each shape exercises different climb and descend paths.',
 ['src/rbtree/rbtree_minimum_node.c','src/rbtree/rbtree_maximum_node.c','src/rbtree/rbtree_successor_node.c','src/rbtree/rbtree_predecessor_node.c','src/rbtree/rbtree_node_value.c'],
 [('minimum, maximum, successor, predecessor','src/rbtree/*_node.c')])
p('C13','Trimming removes exactly the surrounding whitespace',
 'Trimming a string on the left, on the right or on both sides leaves exactly the original text without its leading, trailing or both runs of whitespace, and chomping removes exactly the last character. No byte outside the string\'s storage is read or written, and blank and empty strings become empty.',
 ['inputs'],'all strings of any length, over all byte values',
 'Tests sample a few literals; off-by-one and out-of-bounds errors hide at particular lengths, empty strings and unusual bytes.',
 ['src/string/left_trim.c','src/string/right_trim.c','src/string/trim.c','src/string/chomp.c','src/string/is_whitespace.c'],[('trim functions','src/string/*trim.c')])
p('C14','Splitting and iterating words recovers exactly the tokens',
 'Splitting a string at a delimiter yields the text before and after the first occurrence, or, when it does not occur, an indication of that and an unchanged string. Iterating over delimited fields or over whitespace-separated words yields every field or word exactly once, in order and complete, and then reports the end. Nothing outside the string is read or written.',
 ['inputs','histories'],'all strings of any length, all delimiters, complete iterations',
 'Tests iterate over a few literals; leading, trailing, repeated and missing delimiters at any length are not enumerated.',
 ['src/string/split.c','src/string/multisplit.c','src/string/words.c'],[('split, multi-split and words iterators','src/string/*.c')])
p('C15','Duplicating, concatenating and prefix tests agree with the strings',
 'A duplicated string is a fresh, equal, terminated copy; concatenating any number of strings yields a fresh terminated string holding exactly their texts in order; and when memory runs out an error is reported and nothing is leaked. The prefix test answers yes exactly when the string begins with the other, and the suffix test exactly when its last character is the given one.',
 ['inputs','fault_sequences'],'all strings of any length, any number of arguments, allocation failure',
 'Tests sample a few literals; unequal lengths, empty strings and shared prefixes are unbounded.',
 ['src/string/strdup.c','src/string/vstrcat.c','src/string/starts_with.c','src/string/ends_with.c'],[('strdup/strcatv/starts_with/ends_with','src/string/*.c')])
p('C16','UUID text and binary forms convert exactly and malformed text is rejected',
 'Formatting a UUID and parsing the text gives back the same UUID, and parsing well-formed text in either digit case and formatting it gives back the same text in lower case. Text of the wrong length, with a wrong separator or with a non-hexadecimal digit is rejected with an error, and then the caller\'s UUID is unchanged.',
 ['inputs'],'all 2^128 UUIDs and all texts',
 'Tests try a couple of UUIDs and malformed strings out of an astronomically large set.',
 ['src/uuid/rcpr_uuid_parse_string.c','src/uuid/rcpr_uuid_parse_raw_string.c','src/uuid/rcpr_uuid_to_string.c'],[('parse and format','src/uuid/*.c')])
p('C17','Big integers are created, cloned and released faithfully',
 'A new big integer of a given bit size reads zero in all its digits and has room for at least that many bits, and a clone has the same size, sign and digits in memory of its own. Changing or releasing one never affects the other, and releasing gives all its memory back.',
 ['inputs','fault_sequences'],'all sizes and digit values, allocation failure',
 'Tests use one or two sizes; copying errors depend on size and contents.',
 ['src/bigint/bigint_create_zero.c','src/bigint/bigint_clone.c','src/bigint/bigint_release.c'],[('create_zero and clone','src/bigint/*.c')])
p('C18','Values written raw to a stream read back equal, in network byte order',
 'Every fixed-width integer, boolean or byte sequence written raw to a stream and read back by the matching raw read yields the same value, and integers travel most significant byte first in exactly their width, as do the host/network conversions. When the transfer fails, the error is reported and no partial value is delivered as if it were complete.',
 ['inputs','fault_sequences'],'all values of every width, all byte sequences, a failure at any byte',
 'Tests round-trip a few sample values and never fail mid-value.',
 ['src/psock/psock_read_raw_int16.c','src/psock/psock_write_raw_int16.c','src/psock/psock_read_raw_uint64.c','src/psock/psock_write_raw_uint64.c','src/psock/psock_read_raw_data.c','src/psock/psock_write_raw_data.c','include/rcpr/byteswap.h'],
 [('raw readers and writers','src/psock/psock_read_raw_*.c, src/psock/psock_write_raw_*.c')])
p('C19','Boxed values read back equal and mistyped or malformed ones are rejected',
 'Every integer, boolean, string or data packet written boxed to a stream and read back by the matching boxed read yields an equal value, with the type tag and length that the format defines. A packet of a different type, with an inconsistent length or cut short is rejected with an error and yields no value, and memory obtained for it is given back.',
 ['inputs','fault_sequences'],'all values and lengths, all malformed headers, every failure position',
 'Tests round-trip sample values; malformed lengths and mid-packet failures are unbounded.',
 ['src/psock/psock_read_boxed_int32.c','src/psock/psock_write_boxed_int32.c','src/psock/psock_read_boxed_string.c','src/psock/psock_write_boxed_string.c','src/psock/psock_read_boxed_data.c','src/psock/psock_write_boxed_data.c'],
 [('boxed readers and writers','src/psock/psock_read_boxed_*.c, src/psock/psock_write_boxed_*.c')])
p('C20','Transfers are complete and in order however the operating system splits them',
 'A raw transfer of a given size that succeeds moved exactly those bytes, each once and in order, no matter how the operating system splits the transfer into short reads and writes. If the stream ends or an error occurs first, the call reports an error.',
 ['inputs','schedules','fault_sequences'],'all sizes and all sequences of short transfers, interruptions, end-of-file and errors',
 'Local sockets in tests deliver small messages whole; the short-transfer sequences are chosen by the operating system.',
 ['src/psock/psock_read_raw.c','src/psock/psock_write_raw_data.c','src/psock/psock_from_descriptor_read.c','src/psock/psock_from_descriptor_write.c'],[('read/write loops','src/psock/*.c')])
p('C21','Buffer-backed streams store and deliver bytes faithfully',
 'A stream created over a byte buffer delivers exactly those bytes in order and then reports the end, never reading beyond the buffer. An output buffer stream accumulates exactly the bytes written, in order, and hands over precisely those bytes with their count; running out of memory is reported and loses nothing that was accepted before.',
 ['inputs','histories','fault_sequences'],'all buffers, all sequences of reads and writes of any size, allocation failure at any point',
 'Tests use one or two short buffers; buffer growth at every size and its failure are not reached.',
 ['src/psock/psock_from_buffer_read.c','src/psock/psock_from_buffer_write.c','src/psock/psock_create_from_buffer.c','src/psock/psock_from_buffer_get_output_buffer.c'],[('buffer stream read/write','src/psock/psock_from_buffer_*.c')])
p('C22','Buffered reader neither loses, repeats nor invents bytes',
 "The bytes a buffered reader delivers, through whole-line reads, until-end-of-file reads, sized reads or the stream view over it, are exactly the bytes of the underlying stream in order, each once. A line read delivers the text before the next line feed (the feed itself is consumed), or as much as fits in the caller's buffer with the rest delivered by the next reads, always terminated and never beyond the buffer. When the underlying stream ends or fails, the text received so far is still delivered, and after that the end or error is reported.",
 ['inputs','histories','fault_sequences'],'all streams, all chunkings by the underlying stream, all buffer sizes, all read sequences',
 'Lines that straddle a refill, exactly fill a buffer or meet end-of-file are combinations of sizes tests do not enumerate.',
 ['src/psock/psock_br_read_line.c','src/psock/psock_br_fill.c','src/psock/psock_br_psock_read.c','src/psock/psock_br_create_from_psock.c'],[('buffered reader fill and line read','src/psock/psock_br_*.c')],
 [('current_size/buffer','unread buffered bytes','src/psock/psock_internal.h')])
p('C23','Process descriptor set-up puts every descriptor in its place',
 'Moving descriptors above a threshold leaves each variable naming a descriptor at or above it for the same file, however the numbers overlap, and closes only the originals given up; mapping the moved descriptors to their targets puts each file on the number requested for it and leaves one already in place open. Used together they realise any assignment of files to numbers. Closing the others closes exactly the numbers above the given one, and any failure of the operating system is reported.',
 ['inputs','fault_sequences'],'all assignments of original to target descriptor numbers and all system call failures',
 'Tests use descriptors that do not collide; overlapping and cyclic assignments are combinatorial.',
 ['src/socket_utilities/socket_utility_socketpair.c','src/socket_utilities/vsocket_utility_move_descriptors.c','src/socket_utilities/vsocket_utility_setfds.c','src/socket_utilities/socket_utility_close_other_fds.c'],[('descriptor moves','src/socket_utilities/*.c')])
p('C24','A one-shot trigger notifies its listener exactly once per registration',
 'A listener registered with an auto-reset trigger is notified exactly once for its registration, by the first step at which the trigger is signalled while the listener is registered. Afterwards the trigger is reset with no listener; a signal given or a registration made from within the notification is kept for a later step, and a second registration while one is pending is refused without disturbing it.',
 ['histories'],'all histories of signalling, registering and stepping, including calls made from within the notification',
 'Tests run two or three steps in the plain order; re-entrant and repeated histories are unbounded.',
 ['src/auto_reset_trigger/auto_reset_trigger_signal.c','src/auto_reset_trigger/auto_reset_trigger_register.c','src/auto_reset_trigger/auto_reset_trigger_step.c'],[('trigger state machine','src/auto_reset_trigger/*.c')])
p('C25','Non-blocking streams wait for readiness and resume without losing data',
 'A stream wrapped for non-blocking use behaves to its caller as a blocking one: when the operating system would block, the calling fiber yields until the descriptor is ready and then resumes exactly where it stopped, losing and repeating no byte. Any error while waiting ends the call with an error, and an out-of-band event that the handler does not tell it to retry is reported to the caller.',
 ['schedules','inputs','fault_sequences'],'all sequences of would-block, partial transfers, wake-ups, out-of-band events and errors',
 'Would-block timing and out-of-band events depend on the peer and scheduler; tests see one timing.',
 ['src/psock/psock_wrap_async_read.c','src/psock/psock_wrap_async_write.c','src/psock/psock_wrap_async_accept.c','src/psock/psock_read_block.c','src/psock/psock_write_block.c'],[('async wrapper','src/psock/psock_wrap_async*.c')])
p('C26','The fiber scheduler switches, queues and stops fibers as requested',
 'Under the scheduler each runnable fiber is resumed in first-in first-out order, with exactly the restore reason and parameter its resumer supplied, and a fiber that yields hands its yield reason and parameter to the handler meant for it. A fiber that stops is never resumed again and is retired exactly once; control always goes to a fiber that is runnable. An error from the scheduler is reported to the caller, not lost.',
 ['histories','schedules','fault_sequences'],'all histories of adding, running, yielding and stopping fibers, and every failure inside them',
 'Tests run a couple of fibers through one fixed history; the scheduler must be right for all of them and under failures.',
 ['src/fiber/common/fiber_scheduler_create_with_disciplines.c','src/fiber/common/fiber_scheduler_run.c','src/fiber/common/fiber_scheduler_add.c','src/fiber/common/fiber_scheduler_yield.c','src/fiber/common/fiber_discipline_yield.c'],[('disciplined scheduler callback','src/fiber/common/*.c')])
p('C27','Scheduling disciplines are registered atomically and dispatched exactly',
 'A registered discipline is found by its identity, its requests are dispatched only to its own handlers in the position it declared, and requests outside its declared range are refused with an error. Registering the same identity twice is refused, and a registration that fails part-way leaves the scheduler and the caller\'s ownership as before, so nothing is later released twice.',
 ['inputs','histories','fault_sequences'],'all sets of disciplines, all request codes, every failure position in registration',
 'Tests register one discipline and send valid requests; out-of-range codes and mid-registration failures are not tried.',
 ['src/fiber/common/fiber_scheduler_discipline_add.c','src/fiber/common/fiber_scheduler_discipline_find.c','src/fiber/common/fiber_scheduler_discipline_create.c','src/fiber/common/fiber_discipline_yield.c'],[('discipline tables','src/fiber/common/*.c')])
p('C28','Mailbox messages arrive once, in order, with exact ownership',
 'A message sent to a mailbox is received exactly once by a receiver of that mailbox, in the order sent, with the payload and return address it was sent with, and a waiting receiver is woken. A send to an unknown or closed mailbox fails and leaves the message with the sender; closing a mailbox wakes its waiting receiver with an error and releases its undelivered messages once. Mailbox addresses are unique among open mailboxes.',
 ['histories','schedules','fault_sequences'],'all histories of create, send, receive and close over any number of mailboxes, and every allocation failure',
 'Tests exchange a few messages in a fixed order; ownership on failure and on close depends on histories they do not try.',
 ['src/message/message_discipline_mailbox_create_callback_handler.c','src/message/mailbox_create.c','src/message/message_send.c','src/message/message_receive.c','src/message/mailbox_close.c'],[('message discipline callbacks','src/message/*.c')])
p('C29','Condition barriers wake exactly the fibers they should, once',
 'A fiber waiting on a condition barrier resumes only after being notified or after the barrier is closed, notifying one wakes exactly the longest-waiting fiber, and notifying all wakes exactly the fibers then waiting, each once. Notifying a barrier with no waiter succeeds and wakes nobody, closing one wakes its waiters with an error, and operating on an unknown barrier reports an error.',
 ['histories','schedules','fault_sequences'],'all histories of create, wait, notify and close over any number of barriers, and every failure inside them',
 'Tests run one fixed interleaving of a few fibers.',
 ['src/condition/fiber/condition_discipline_wait_callback_handler.c','src/condition/fiber/condition_discipline_notify_one_callback_handler.c','src/condition/fiber/condition_discipline_notify_all_callback_handler.c','src/condition/fiber/condition_discipline_close_callback_handler.c'],[('condition discipline callbacks','src/condition/fiber/*.c')])
p('C30','Threads, mutexes and condition variables map faithfully onto the system',
 'Starting a thread runs its entry function once with its context, and releasing the thread waits for it to finish; a mutex lock is held from acquisition until release of the lock, and releasing it unlocks that very mutex once. Waiting on a condition variable gives the caller\'s lock up to the system for the wait and hands it back after, and every system failure is reported as an error with nothing leaked.',
 ['fault_sequences','inputs'],'all outcomes of the underlying system calls',
 'System call failures do not happen in tests, and the pairing of lock, unlock, join and destroy must hold on every path.',
 ['src/platform/pthread/thread/thread_create.c','src/platform/pthread/thread/thread_mutex_create.c','src/platform/pthread/thread/thread_mutex_lock_acquire.c','src/platform/pthread/thread/thread_cond_wait.c'],[('pthread wrappers','src/platform/pthread/thread/*.c')])
p('C31','Mutual exclusion and wake-up hold under every thread interleaving',
 'Between acquiring and releasing a mutex no other thread holds it, under every interleaving of threads, and a signalled condition variable wakes a waiting thread.',
 ['schedules'],'all interleavings of operating system threads',
 'Tests see a handful of interleavings.',
 ['src/platform/pthread/thread/thread_mutex_lock_acquire.c','src/platform/pthread/thread/thread_cond_wait.c'],[('pthread mutex and condition variable','src/platform/pthread/thread/*.c')])
p('C32','Switching fibers preserves every register and stack of the suspended fiber',
 'When a fiber is resumed, its stack and every register the calling convention preserves hold exactly what they held when it was suspended, and it is told the discipline, reason and parameter it is resumed with. A new fiber begins at its entry, with its scheduler and itself as arguments, on its own correctly aligned stack; a return from the entry ends the process with an error.',
 ['schedules','programs'],'all fibers and all sequences of switches',
 'Tests observe a few local variables across a few switches.',
 ['src/fiber/platform/sysv/x86_64/fiber_switch.s','src/fiber/platform/sysv/x86_64/fiber_make.s'],[('assembly context switch','src/fiber/platform/sysv/x86_64/*.s')])
import os
for d in P:
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('MISSING',d['id'],f)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
