#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability): run to regenerate."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
SHR='src/shr.c'; BW='lib/bw.c'; UX='lib/ux.c'; TOOL='util/shr-tool.c'

p('C01','Shared ring state is only touched under the exclusive ring lock',
 "Every read or write that a library call makes of the ring's shared mutable content (positions, counters, statistics, message table, message bytes, application data, and the waiter tables of both wake-up channels) happens while the calling process holds the exclusive lock on the whole ring file. The lock is taken in waiting mode, and a call that fails to get it touches none of that content and reports an error.",
 ['schedules','inputs'],'all interleavings of any number of reader and writer processes, for every API call, flag combination and error path',
 'Tests run a few processes on timed schedules; a missing or early-released lock only shows on rare interleavings.',
 [SHR],[('lock()/unlock() POSIX record lock around every critical section',SHR),('F_SETLKW / F_WRLCK whole-file',SHR)])
p('C02','The ring lock is always released, and never held while sleeping',
 "Whatever its outcome, every library call returns with the ring lock released, and it is never inside a potentially unbounded wait (for data, for space, or on caller descriptors) while holding the lock. Consequently one stuck or failing caller cannot block the others.",
 ['schedules','fault_sequences','inputs'],'every return path of every API call including each failing system call, and every blocking wait',
 'Tests never inject system-call failures and exercise a handful of wait paths.',
 [SHR],[('done: labels that unlock',SHR),('unlock before bw_wait_ul',SHR)])
p('C03','A write places all of its messages or leaves the ring untouched',
 "A write of one or several messages that returns a positive value has placed exactly the given messages, in order, and returns their total byte count; one that returns 0, -3, or -1 because the request can never fit (too many bytes or messages for the ring, an empty message, or a byte total that overflows) leaves ring content, counters and statistics unchanged, apart from messages already held by a buffered handle that it flushed. Empty messages and overflowing totals are refused with -1 rather than aborting or corrupting memory.",
 ['inputs','histories'],'every vector length, element size (including zero and near SIZE_MAX), ring fill state and mode',
 'Tests use small well-formed vectors; boundary totals, zero-length later elements and overflowing sums are not tried.',
 [SHR],[('size validation loop and capacity test in shr_writev',SHR),('counters advanced once after copy loop',SHR)])
p('C04','Messages appear only when complete and are consumed only after copying',
 "If a process dies at any point inside a write, no reader can be handed a message whose bytes or table entry were not completely stored: the message counts that make messages readable are raised only after all bytes and table entries of the write are in place. If a process dies inside a read, the message it was copying is still in the ring: a message is marked consumed only after all of its bytes were copied to the caller.",
 ['crash_points'],'process death between any two instructions of a write or read (the kernel then drops the file lock)',
 'Tests never kill a process inside a critical section.',
 [SHR],[('order copy -> publish counters in shr_writev',SHR),('order copy -> advance in shr_readv',SHR)])
p('C05','Message bytes are stored and fetched intact, wrapping at the ring end',
 "Each written message occupies exactly the bytes recorded for it, starting at the ring's current write position and continuing at the start of the data area when it reaches the end, and is fetched by the same rule; the bytes copied out are those of the recorded position and length, in order. No copy ever reaches outside the ring's data area or outside the message table, for any message size, position and ring size.",
 ['inputs','histories'],'every ring size, write position, message length up to the full ring, and any sequence of earlier writes and reads',
 'Tests use a few sizes; a wrong split or an out-of-area copy only shows for particular position/length pairs.',
 [SHR],[('msg_wraps/l1/l2 split in shr_writev',SHR),('next_msg_info',SHR)])
p('C06','Ring bookkeeping stays consistent across every operation',
 "If the ring's bookkeeping is consistent when an operation takes the lock, it is consistent when the operation releases it: the write position stays inside the data area, unread bytes never exceed the ring size, unread messages never exceed the message limit, the slots of the next unread and of the oldest message stay inside the message table and agree with the oldest sequence number and the message counts, and every new table entry describes bytes inside the data area. Every write adds its messages exactly once to unread bytes, unread messages and messages present, and every consuming read subtracts exactly what it returned.",
 ['histories','inputs'],'all finite histories of writes, reads, drops and resets by any processes (inductive over critical sections)',
 'Tests sample short histories; a one-off drift of a counter or slot needs particular histories to surface.',
 [SHR],[('counter updates in shr_writev, shr_readv, drop_unread',SHR),('eldest-slot advance loop',SHR)],
 [('i,u,m,mp,r,e,q','write offset, unread bytes/messages, messages present, read slot, eldest slot, eldest seqno',SHR)])
p('C07','Unread data is discarded only in drop mode, oldest first, and is counted',
 "Only a write to a ring created in drop (or farm) mode ever discards unread messages, and only when the write does not otherwise fit. It discards whole messages starting from the oldest unread one, no more than needed to make the write fit, and each discarded message and byte is removed from the unread counts and added to the drop statistics.",
 ['histories','inputs','configurations'],'every fill state, message-size mix, byte limit or message limit being the binding one, and ring mode',
 'Tests check a few drop scenarios with uniform sizes.',
 [SHR],[('drop_unread',SHR),('SHR_DROP test in shr_writev',SHR)])
p('C08','Non-blocking and drop-mode calls never wait',
 "A read through a handle opened non-blocking returns 0 at once when no message is available, and a write through a non-blocking handle returns 0 at once when space is lacking; neither ever enters a wait for the peer. A write to a drop-mode ring never waits either; the only call on a non-blocking handle that may wait is an explicit blocking flush, after which the handle is non-blocking again on every outcome.",
 ['schedules','configurations','histories'],'every handle mode, ring mode, fill state and outcome of the calls',
 'A wrongly entered wait shows only in particular mode/fill combinations, as a hang.',
 [SHR],[('SHR_NONBLOCK tests before bw_wait_ul',SHR),('toggle in shr_flush',SHR)])
p('C09','Blocked callers re-check under lock and honour the caller descriptor',
 "A blocking call waits only after it found, under the lock, that it could not proceed, and after each wake-up it re-takes the lock and re-tests before touching messages, so spurious or stolen wake-ups never yield a wrong result. The wait watches both its own wake-up channel and every descriptor the caller registered; if a registered descriptor becomes ready the call returns -3, and if waiting fails it returns -1, in both cases with nothing transferred.",
 ['schedules','fault_sequences'],'all orders of wake-ups, competing consumers/producers and registered-descriptor readiness',
 'Tests have a few timed schedules; stolen wake-ups and interrupted waits are not covered.',
 [SHR,BW],[('retry loops in shr_readv/shr_writev',SHR),('bw_wait_ul, bw_ctl',BW)])
p('C10','Every change a blocked peer waits for sends a wake-up before unlocking',
 "Every call that adds messages to the ring sends the reader wake-up, and every read that returns data sends the writer wake-up, within the same critical section that made the change. A call that opens its waiting side registers it while holding the lock, so no wake-up can be lost between the test and the wait.",
 ['schedules','histories'],'all interleavings of waiting and signalling processes and every data-moving path',
 'A lost wake-up needs a specific interleaving and shows as a hang.',
 [SHR],[('bw_wake calls in shr_writev/shr_readv',SHR),('open_blockwake under lock',SHR)])
p('C11','The pollable descriptor is readable whenever unread data remains',
 "After a read call returns, the handle's pollable descriptor has been set readable if messages remain for that reader and cleared if none remain, and after opening for reading it reflects whether the ring holds data; each adjustment is made under the ring lock, after the read position was advanced. The descriptor is handed out only for handles opened for non-blocking reading.",
 ['schedules','histories'],'every read outcome (nothing available, some, all consumed, buffer too small) and reader mode',
 'Tests poll on a few histories; a stale readiness after partial or failed reads needs particular ones.',
 [SHR,BW],[('bw_force calls in shr_readv/open_blockwake',SHR),('bw_force set/clear logic',BW),('shr_get_selectable_fd mode test',SHR)])
p('C12','Farm readers are independent and skip forward over lost messages',
 "On a farm ring a read changes nothing that other readers depend on: it advances only the reader's private position, by exactly the number of messages returned. A reader whose next message has been overwritten continues with the oldest message present, and the number of messages it missed is added to its loss count; a new reader starts at the oldest message present.",
 ['histories','schedules'],'any number of farm readers at any positions relative to a writer that overwrites',
 'Tests use few readers and short overruns.',
 [SHR],[('SHR_FARM branches in next_msg_info and shr_readv',SHR),('shr_open initial seqno',SHR),('shr_farm_stat',SHR)])
p('C13','Reads never overrun the caller and never lose a message that did not fit',
 "A read stores at most the given number of bytes in the caller's buffer and at most the given number of vector entries, each entry describing exactly one whole message inside the buffer and the reported count equal to the entries filled. If the next message does not fit the whole buffer the call returns -2 and consumes nothing; otherwise it returns the total bytes stored.",
 ['inputs','histories'],'every buffer length, vector count and sequence of message sizes',
 'Tests try a few buffer/message size combinations.',
 [SHR],[('niov/len tests in the copy loop of shr_readv',SHR)])
p('C14','Buffered writes keep order and are neither lost nor duplicated',
 "On a buffered write handle, accepted messages are held in order and reach the ring in order: a later message never enters the ring ahead of held ones, and held messages are forgotten only when a transfer of all of them to the ring succeeded, so a failed, refused or interrupted flush keeps them for the next attempt. The holding area is never overfilled, what it holds always fits an empty ring, closing the handle attempts a flush, and the handle stays in buffered mode on every outcome. A flush reports failure only if a system call or allocation it made failed or its wait was interrupted.",
 ['histories','inputs','fault_sequences'],'all sequences of buffered writes, flushes and close with blocking/non-blocking handles and full rings',
 'Tests flush at a few points and never with a refused flush in the middle.',
 [SHR],[('cache branch of shr_writev',SHR),('shr_flush',SHR),('shr_close',SHR),('init_cache clamps',SHR)])
p('C15','Synchronous rings are flushed to storage in the same critical section',
 "On a ring created with the sync flag, every successful call that changed the ring (write, read, application-data update, statistics reset, open) performs a synchronous flush of the whole mapping after its last change and before releasing the lock, and a write whose flush fails does not report success. On other rings no such flush is performed.",
 ['crash_points','fault_sequences','histories'],'power loss after any completed call; every mutating path',
 'No test uses power failure or a failing flush.',
 [SHR],[('shr_sync',SHR)])
p('C16','Creating a ring never damages an existing one and never leaves a partial file',
 "Creation with the keep flag leaves an already existing file completely untouched and succeeds; without it the old file is unlinked and a new file is created exclusively, so processes that still have the old ring open are never affected. If creation fails after the new file was made, that file is removed again and no file that the call did not create is removed; every descriptor and mapping used for creation is released. Creation with valid arguments fails only if a system call failed.",
 ['configurations','fault_sequences','schedules'],'existing/non-existing target, keep flag, and a failure of each system call in turn',
 'Tests create rings successfully; failures are not injected.',
 [SHR],[('exists/unlink/O_EXCL sequence and done: cleanup in shr_init',SHR)])
p('C17','A created ring has disjoint, correctly sized areas and the requested attributes',
 "A successfully created ring file is large enough for its control area, data, padding, message table and application data laid out one after another without overlap, with exactly the requested data size and application data, the requested message limit (or one hundred plus a hundredth of the size when unspecified), an aligned message table, all positions and counters zero, and exactly the requested mode attributes recorded (farm implying drop). Requests with zero size, flags that belong to opening, or sizes whose total overflows are refused.",
 ['inputs','configurations'],'all sizes, message limits, application-data sizes and flag combinations',
 'Tests use small sizes; overflowing and unaligned combinations are not tried.',
 [SHR],[('size computation and control-block initialisation in shr_init',SHR)])
p('C18','Opening rejects files that are not usable rings and invalid modes',
 "Opening fails, returning NULL and leaving the file unchanged, unless exactly one of read-only and write-only is requested, no creation flag is passed, and the file is at least as large as its recorded areas require, carries the ring signature, and has in-range counters and positions; nothing in the file is interpreted before the file is known to be large enough to hold it. A ring created to be memory-locked is locked into memory before a successful open returns, and failure to lock it fails the open. Conversely, a file that meets these conditions is not refused: an open of it with valid flags fails only if a system call or allocation failed, or the ring's table of waiters is full.",
 ['inputs','configurations'],'arbitrary file contents and sizes and all flag words',
 'Tests only open valid rings.',
 [SHR],[('validate_flags, validate_ring',SHR),('mlock in shr_open',SHR)])
p('C19','Failed opens, failed creations and closes release everything they acquired',
 "A failed open or a close leaves no descriptor, mapping, heap block or waiter registration behind that the call or the handle acquired, on every path (for close: whenever the lock can be taken), and nothing is released twice or used after release. The same holds for the internal open and close of wake-up channels.",
 ['fault_sequences','histories'],'a failure of each system call or allocation in turn, in every mode',
 'Tests never inject failures; leaks and stale registrations accumulate silently.',
 [SHR,BW],[('error labels in shr_open, init_cache, open_blockwake',SHR),('shr_close',SHR),('bw_open error label, bw_close',BW)])
p('C20','Application data is read and replaced exactly, within bounds',
 "Reading application data returns exactly the stored bytes and their true length, and touches neither memory beyond the caller's stated buffer nor beyond the stored area; replacing it requires a buffer of exactly the stored length and stores exactly those bytes; a size mismatch or a ring without application data yields -1 with nothing changed. A combined get-and-set returns the previous content. A request that fits fails only if a system call or allocation failed.",
 ['inputs'],'every combination of get/set pointers and caller sizes (smaller, equal, larger)',
 'Tests use matching sizes only.',
 [SHR],[('shr_appdata',SHR)])
p('C21','Statistics reflect completed operations and resets atomically',
 "Messages and bytes written and read are added to the statistics exactly once per completed transfer, and a statistics call returns, as one consistent snapshot under the lock, the period counters together with the current ring size, unread bytes and messages, limits, attributes and the caller's own buffered amounts. Passing a reset time returns the old period's counters, then zeroes all of them and records the new start; without it nothing is changed. It fails only if a system call failed.",
 ['histories','schedules'],'all interleavings of transfers, statistics calls and resets',
 'Tests read statistics after simple histories.',
 [SHR],[('shr_stat',SHR),('stat updates in shr_readv, shr_writev, drop_unread',SHR)])
p('C22','Waiter registrations are unique, bounded and version-stamped',
 "At most 64 waiters can be registered on a wake-up channel; a further one fails cleanly without disturbing others, while an open for which a slot is free fails only if a system call or the probe failed. A registration occupies a free slot only after its own wake-up address is recorded there, and every open first frees the slots of registered waiters known to be gone. Every change to the table (registering, releasing, purging) also changes the version that wakers compare, and no access falls outside the table.",
 ['schedules','histories','inputs'],'all sequences of opens, closes and crashes of up to and beyond 64 waiters',
 'Tests use a couple of waiters.',
 [BW],[('bw_reserve, make_socket',BW),('seqno increments',BW)],
 [('wr[].pid, wr[].name, seqno','slot owner, socket name, table version','lib/bw.h')])
p('C23','A wake-up reaches every registered waiter and never blocks the waker',
 "Before signalling, a waker whose view is outdated connects to every registered waiter it does not know and disconnects from those that left; it then signals every one of its connected waiters without ever blocking. A waiter's registration is purged only when that waiter is known to be gone (its address no longer accepts messages for a reason other than a full queue, or its process no longer holds it), never because its queue is full or its state cannot be determined.",
 ['schedules','fault_sequences','histories'],'any set of live, dead, slow and unreachable waiters in any slots',
 'Tests have one or two healthy waiters.',
 [BW,UX],[('bw_sync, open_socket, wake_one, bw_wake',BW),('prune_handle + has_pid_socket',BW)])
p('C24','Liveness probing is conservative and memory-safe',
 "The probe that decides whether a registered waiter still exists answers 'gone' only if the process does not exist or its open sockets were completely enumerated without finding the address, 'present' only if a socket of that process has that address, and 'unknown' on any failure. When nothing fails and the tables are well formed it answers 'gone' or 'present': a socket without a name, or of another process, does not stop the search, and a socket that has the address and belongs to the process is never passed over. It releases everything it opens and never reads or writes outside its buffers, whatever the kernel tables contain.",
 ['inputs','fault_sequences'],'arbitrary contents of the process and socket tables and failure of each system call',
 'Tests see one machine state.',
 [UX],[('has_pid_socket, get_socket_inodes, has_socket_name, slurp_special, get_col',UX)])
p('C25','The subscriber survives any byte stream and any split of frames',
 "Whatever bytes a publisher sends, in whatever pieces they arrive, the subscriber never writes or reads outside its frame buffer or vector, never aborts, and refuses frames larger than it can hold; frames are passed to the ring whole, once, in order, and a trailing partial frame is kept and completed by later data.",
 ['inputs','schedules'],'all byte streams and all segmentations of them',
 'There are no tests of the command-line tool.',
 [TOOL],[('decode_frames, do_subscriber',TOOL)])
p('C26','The tool forwards each message completely and once',
 "When printing raw messages or publishing them, the tool writes every byte of each message in order, continuing after partial writes from where they stopped and treating write errors as errors; published messages are preceded by their length unless prefixes are disabled. In tee mode each message read from the source is written once to both destination rings before the next is read. A message limit ends reading after exactly that many messages; otherwise the tool ends only on a signal, a failure or, when not asked to block, at the end of the data.",
 ['inputs','fault_sequences'],'all message sizes, all partial-write splits and write failures',
 'There are no tests of the command-line tool.',
 [TOOL],[('handle_io',TOOL)])
p('C27','The mount command never stacks RAM disks',
 "The tool mounts a RAM filesystem only after establishing that the directory is not already a RAM-disk mount point, once, on the directory named, with the type and size asked for; the query and unmount forms never mount anything; subdirectories are created only with the option that asks for them, after the new mount succeeded and was entered, each once. A query names a RAM disk only where one is mounted. The exit status is success exactly when everything asked for was done.",
 ['configurations','inputs','fault_sequences'],'all existing mount states, option combinations and failures of system calls',
 'There are no tests of the command-line tool.',
 [TOOL],[('suitable_mountpoint, mode_mount case of main',TOOL)])
p('C28','Creation options reach the library as documented',
 "Each documented creation option letter of the tool sets exactly its own ring attribute, the size is scaled by its unit, and every ring-creating call of the tool passes the optional trailing arguments (application data with its length, maximum number of messages) in the number, order and types that its flags announce. The library reads optional arguments only as its flags announce them. Every ring named is created once, and the exit status is success exactly when all were.",
 ['configurations','inputs'],'all option combinations, ring names and failures',
 'There are no tests of the command-line tool; a mismatched variadic argument is undefined behaviour that may pass by luck.',
 [TOOL,SHR],[('option loop and mode_create case of main',TOOL),('va_arg sequence in shr_init',SHR)])
p('C29','The publisher serves one client at a time and outlives its clients',
 "The publisher reads messages from the ring only while a client is connected, closes every additional connection at once, and closes a client that disconnects or fails; it then awaits the next one. No client behaviour ends the publisher or makes it send to, or close, a connection that is already closed: it ends only on a signal or when the ring, the listening socket or the event set fails.",
 ['schedules','fault_sequences'],'all orders of connections, disconnections, receive and send failures and new messages',
 'There are no tests of the command-line tool.',
 [TOOL],[('accept_client, handle_client, close_client, handle_io',TOOL)])
p('C30','The write commands store exactly what they are given',
 "Each write command opens the ring named for blocking writes. 'write' stores the text of each input line that is not empty, whatever its length, as one message without its newline, in order, each once, and ends with success only at the end of the input; 'writehex' stores the bytes spelled by its argument as one message, and refuses an argument that is empty, of odd length or not made of hexadecimal digits, without writing; 'writefile' stores the whole content of its file as one message. Each command reports success exactly when everything was written.",
 ['inputs','fault_sequences'],'all lines, arguments and files, and every failure',
 'There are no tests of the command-line tool.',
 [TOOL],[('mode_write, mode_write_hex, mode_write_file cases of main; unhex; map',TOOL)])
p('C31','The status command reports the ring truthfully and changes nothing',
 "'status' opens the ring for reading, resets nothing, and prints every counter under its own name, exactly the attributes that the ring has, and the size of its application data, or zero; on request it prints the application data or saves all of it in the file named. It reports success only if all it was asked for was done.",
 ['inputs','fault_sequences','configurations'],'all ring states and attribute combinations, all failures and partial writes',
 'There are no tests of the command-line tool.',
 [TOOL],[('mode_status case of main',TOOL)])
p('N01','Messages are delivered in first-in first-out order across histories',
 "Across any history, each consuming reader set receives messages in exactly the order they were written, each once, unless dropped in drop mode.",
 ['histories','schedules'],'all histories of concurrent readers and writers',
 'Tests sample short histories.',[SHR],[('message table slots in write order',SHR)])
p('N02','A synced ring survives power failure',
 "After a power failure at any instant, a disk-backed synchronous ring can be reopened and holds every message whose write had returned.",
 ['crash_points'],'power loss at any instant',
 'No test can cut power.',[SHR],[('shr_sync',SHR)])
p('N03','Blocked callers eventually proceed',
 "A blocked reader or writer proceeds eventually if data or space keeps becoming available, regardless of competing processes.",
 ['schedules'],'all fair schedules','Fairness cannot be sampled.',[SHR,BW],[('wake-all and retry',BW)])
p('N04','A process killed inside a write leaves the ring usable',
 "After a process is killed at any point inside a write, later operations by other processes work and lose no message other than those of the interrupted write.",
 ['crash_points'],'death at any instruction of a critical section','Tests never kill a process inside a critical section.',
 [SHR],[('order of updates in shr_writev',SHR)])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
