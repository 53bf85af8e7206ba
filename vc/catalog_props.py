SHMM = 'Boost.Interprocess is replaced by an in-process model (assumed contract: segments hand out disjoint live blocks, handles and addresses convert both ways, bad_alloc possible at any time). '

prop('C01', 'Shared-memory buffer layout: header and user data never overlap',
     'For every buffer size and every power-of-two alignment up to 32 KiB, the user area of a shared-memory buffer starts at the requested alignment, lies completely inside the allocated block and never overlaps the bookkeeping bytes. '
     'A fresh buffer has exactly one owner; adding or removing an owner changes the owner count by exactly one and nothing else.',
     ['inputs'], 'all sizes below 2^40 bytes, all power-of-two alignments up to 32768, all block addresses the allocator may return, all owner counts',
     'Tests use a few sizes and alignments at whatever address the allocator returns; the layout arithmetic has to be right for every size, alignment and base address.',
     ['fairmq/shmem/Common.h'], [('ShmHeader::{FullSize,Construct,UserPtr,UserOffset,RefCountPtr}', 'fairmq/shmem/Common.h')],
     note=BASE + 'Assumes the allocator returns at least 2-byte aligned blocks and alignments <= 32768 (the offset is stored in 16 bits).')

prop('C02', 'Every shared-memory buffer is freed exactly once, by its last owner',
     'A shared-memory message buffer is returned to its segment exactly when the last message object owning it goes away - is destroyed, rebuilt or overwritten by a copy - and never earlier or twice, also when owners in different threads release it concurrently. '
     'A buffer that was handed over to the transport by a successful send is not released by the sender. User memory wrapped in a message is handed back through its deallocation function exactly once.',
     ['inputs', 'histories', 'schedules'], 'every reachable message state (empty, owning in the local or a remote segment, shared by any number of owners, queued), every operation of the message interface that releases or acquires a buffer',
     'Tests create and destroy a few messages; leaks and double frees of rarely taken transitions (copy into a sent message, rebuild of a shared one, remote segments, empty user buffers) are not observable without inspecting every allocation.',
     ['fairmq/shmem/Message.h', 'fairmq/shmem/Manager.h', 'fairmq/shmem/Common.h'],
     [('Message::CloseMessage/Deallocate/Copy/Rebuild/constructors', 'fairmq/shmem/Message.h'), ('ShmHeader::DecrementRefCount', 'fairmq/shmem/Common.h'), ('Manager::Deallocate', 'fairmq/shmem/Manager.h')],
     note=BASE + SHMM + 'Fewer than 65535 owners per buffer. Concurrency: rely/guarantee on the atomic owner count (other owners may release at any point).')

prop('C03', 'Resizing a shared-memory message keeps its data and other owners intact',
     'Shrinking a message reports success exactly if the new size is at most the current one (growing within the buffer or failing leaves the message as it was); afterwards the message has the requested size and its first bytes are unchanged. '
     'Other messages sharing the buffer, and every other buffer, keep their contents, size and validity. The data pointer of a message always refers to the memory of its own buffer.',
     ['inputs', 'histories'], 'all message states (owned, shared, local and remote segment), all sizes and every byte of the payload; allocation may give up',
     'Tests shrink a handful of freshly created messages; the dangerous cases are shared buffers, buffers of other segments and the in-place shrink refused by the allocator.',
     ['fairmq/shmem/Message.h', 'fairmq/shmem/Manager.h'], [('Message::SetUsedSize, GetData, GetSize', 'fairmq/shmem/Message.h'), ('Manager::ShrinkInPlace', 'fairmq/shmem/Manager.h')],
     note=BASE + SHMM + 'Manager::Allocate is used through its contract, which is proved against its body under C08. Alignments 0 and 512 are instantiated.')

prop('C05', 'A region block is acknowledged exactly once, after its last message is gone',
     'For every message created over a block of an unmanaged region, exactly one acknowledgement naming that block (address range and hint) is queued when the last message object referring to it is gone, however often it was copied and wherever the copies live. '
     'Messages that were sent are acknowledged by the receiver, not the sender, and messages pointing outside the region are rejected without side effects.',
     ['inputs', 'histories'], 'all blocks of all regions, all owner counts, both places where owner counts can live (own pool or a managed segment), every message operation that drops or shares a block',
     'Tests acknowledge a few blocks of one region; lost or duplicated acknowledgements come from combinations of copying, overwriting, rebuilding and queueing which tests do not enumerate.',
     ['fairmq/shmem/Message.h', 'fairmq/shmem/UnmanagedRegion.h'], [('Message(UnmanagedRegionPtr&,...), Copy, CloseMessage', 'fairmq/shmem/Message.h'), ('UnmanagedRegion::ReleaseBlock', 'fairmq/shmem/UnmanagedRegion.h')],
     note=BASE + SHMM + 'The region outlives its messages; fewer than 65535 owners per block.')

prop('C06', 'Shared-memory transfer of a message is complete, counted and honestly reported',
     'Sending a shared-memory message hands over exactly its size, location and hint and passes ownership to the receiver; the receiver gets a message with the same size and the same bytes and is then its only owner. '
     'A transfer that fails, times out or is interrupted is reported as such, leaves the message with the sender (or the receiving message empty or unchanged), does not touch any counter, and respects the timeout: 0 never blocks, a positive timeout never retries beyond it, a negative one retries until interrupted.',
     ['inputs', 'histories', 'fault_sequences'], 'all message states, all timeouts, every sequence of outcomes of the underlying socket (would-block, signal, termination, success), interruption at any time, any number of retries',
     'Tests see the outcomes one lucky run of libzmq produces; the retry loops have to be right for every sequence of errors and every timeout.',
     ['fairmq/shmem/Socket.h', 'fairmq/shmem/Message.h', 'fairmq/zeromq/Common.h'], [('Socket::Send/Receive', 'fairmq/shmem/Socket.h'), ('ShouldRetry, HandleErrors', 'fairmq/zeromq/Common.h'), ('Message::SetMeta', 'fairmq/shmem/Message.h')],
     note=BASE + SHMM + 'libzmq is replaced by a ghost contract (vc/zmqworld.h) that chooses any documented outcome.')

prop('C07', 'Multi-part shared-memory messages arrive complete, in order and as one',
     'Sending several parts hands over all of them, in order, as one message counted once with the sum of the part sizes, or nothing at all; the receiver appends exactly these parts in the same order to the given container. '
     'On failure, timeout or interruption no part is transferred, counted or appended and all parts stay with the sender.',
     ['inputs', 'histories', 'fault_sequences'], 'all part counts (checked up to the stated bound), sizes and hints, all timeouts, all sequences of outcomes of the underlying socket, any number of retries',
     'Tests send fixed part lists over a working connection; partial failures, padding sizes and empty parts are not enumerated.',
     ['fairmq/shmem/Socket.h'], [('Socket::Send/Receive(Parts::container&)', 'fairmq/shmem/Socket.h')], level='other',
     note='Bounded in the number of parts (at most 3); within that bound all sizes, timeouts and any number of retries are covered by discharged obligations (inductive invariant for the retry loop). ' + SHMM + 'libzmq is a ghost contract.')

prop('C08', 'Shared-memory allocation waits and gives up exactly as configured',
     'Allocating a shared-memory buffer returns a buffer of the requested size and alignment with exactly one owner, taken from the managed segment of this device. '
     'When the segment is full, it is retried as often as configured (forever if negative), it ends as soon as the transport is interrupted, a request larger than the segment is refused immediately, and every failure is reported as MessageBadAlloc without leaking a buffer.',
     ['inputs', 'fault_sequences'], 'all sizes and power-of-two alignments, all retry settings, every pattern of allocation failures, interruption at any time, any number of retries',
     'Tests run out of memory in one scenario with one setting; the retry loop must terminate correctly for every setting and every failure pattern.',
     ['fairmq/shmem/Manager.h', 'fairmq/shmem/Common.h'], [('Manager::Allocate', 'fairmq/shmem/Manager.h')],
     note=BASE + SHMM)

prop('C09', 'Shared memory of a session is removed by its last device, never earlier',
     'Every device of a session is counted once while it uses the session and all devices of a session share one set of records. '
     'When a device leaves, it is subtracted exactly once, under the session lock; only the last one removes the session, only its own session, and not at all if cleanup is disabled. A device that fails to start leaves the count as it was.',
     ['histories', 'schedules', 'fault_sequences'], 'any number of other devices joining and leaving at any time (lock discipline on the shared counter), all settings, start-up failures after the session was joined',
     'Tests start one or two devices in one order; premature or missing removal depends on the interleaving of joins and leaves of independent processes.',
     ['fairmq/shmem/Manager.h'], [('Manager::Manager, CleanupIfLast, ~Manager', 'fairmq/shmem/Manager.h')],
     note=BASE + SHMM + 'Heartbeat threads are not started in the model; what removal does is verified separately (Monitor).')

prop('C10', 'Unmanaged regions have unique ids and are found, promoted and removed correctly',
     'Within a process an id that is already controlled cannot be created again and the attempt changes nothing. Automatic ids continue the session-wide counter from 1024 without repeating. A new region is registered with its configuration and announced exactly once; a view of an existing region is promoted instead of duplicated, '
     'and all users agree on where its reference counts live. Looking up an id yields the registered region with its memory, or nothing. Removing a region marks and announces its destruction exactly once if it is to be removed, only the controller removes the memory, and no later lookup (cached or not) returns the dead region.',
     ['inputs', 'histories'], 'all region ids, sizes and settings; the region may be unknown, registered by another device, viewed or controlled here; one region registered before',
     'Tests create a few regions with fixed ids in one process; collisions with registered, viewed or controlled regions and the lookup cache are not enumerated.',
     ['fairmq/shmem/Manager.h', 'fairmq/shmem/UnmanagedRegion.h'], [('Manager::CreateRegion, GetRegion, GetRegionFromCache, RemoveRegion', 'fairmq/shmem/Manager.h'), ('UnmanagedRegion::UnmanagedRegion, Register', 'fairmq/shmem/UnmanagedRegion.h')],
     note=BASE + SHMM + 'Regions backed by shared memory objects (no file path).')

prop('C11', 'Region events are reported exactly once and only while subscribed',
     'A subscriber to region events gets the creation of every region and segment of the session exactly once - also of those that existed before - with its id, kind, flags, size and memory, and its destruction exactly once, only after its creation was reported. '
     'A region that disappears while it is being looked up does not disturb the others. A new subscription replaces the old one, and nothing is reported after unsubscribing or before subscribing.',
     ['histories', 'schedules'], 'every history of creations, destructions and earlier reports of the segments and regions of the session (number bounded), every order of subscribing and unsubscribing',
     'Tests subscribe once to one region; lost or repeated events depend on what happens between two looks at the shared records.',
     ['fairmq/shmem/Manager.h'], [('Manager::SubscribeToRegionEvents, UnsubscribeFromRegionEvents, RegionEventsLoop, GetRegionInfoUnsafe', 'fairmq/shmem/Manager.h')], level='other',
     note='Bounded: at most two segments and two regions in the session; within that bound every history and content is covered by discharged obligations. ' + SHMM)

prop('C12', 'Region acknowledgements are batched, delivered completely and never lost',
     'Every released block is sent to the creator of its region exactly once, unchanged, in batches of at most 256; a batch the queue cannot take is retried until it is taken or the region is closed. The sender ends only when the region is being closed and nothing is left to send. '
     'The creator reports every received block exactly once, with its own address, size and hint, to the bulk callback or the single one but not both, and at the end waits for outstanding blocks as long as the linger time allows.',
     ['histories', 'schedules', 'fault_sequences'], 'any number of blocks released at any time by other threads, any pattern of full queues and time-outs, closing of the region at any point, all linger times',
     'Tests acknowledge a few blocks; lost or repeated acknowledgements come from batch boundaries, full queues and closing at the wrong time.',
     ['fairmq/shmem/UnmanagedRegion.h'], [('UnmanagedRegion::SendAcks, ReceiveAcks', 'fairmq/shmem/UnmanagedRegion.h')], level='other',
     note='Sending and single callbacks are proved for every batch; bulk callbacks are bounded to 5 blocks per batch. ' + SHMM)

prop('C13', 'Removing or resetting a session touches everything of it and nothing else',
     'Cleaning up a session removes its management records, all its managed segments, regions, reference-count segments, queues and locks, and nothing of any other session; each object is reported once with what happened to it. '
     'Resetting empties the segments and drops queues and reference counts but keeps segments, regions and their records; with a configuration it leaves exactly the configured segments and regions. An unknown allocation algorithm is refused.',
     ['inputs', 'histories', 'fault_sequences'], 'all contents of the management records (ids, kinds, sizes, destroyed or not), each object present or missing',
     'Tests clean up one healthy session; what is left behind by crashed devices - missing records, destroyed regions, half-created objects - is not enumerated.',
     ['fairmq/shmem/Monitor.cxx'], [('Monitor::Cleanup, CleanupFull, ResetContent', 'fairmq/shmem/Monitor.cxx')], level='other',
     note='Bounded: at most two segments and two regions per session. ' + SHMM)

prop('C14', 'The monitor cleans up only sessions that went silent',
     'The monitor removes a session only after it has seen it alive and then no sign of life for longer than the timeout - however heartbeats interleave with its checks - and never touches another session. It ends on its own only if told so: after cleaning up, when a session it has seen is gone, or after twice the timeout if there was none. '
     'A heartbeat counts if and only if the counter moved. There is at most one monitor per session, and it cleans up at exit only if told so.',
     ['histories', 'schedules'], 'all timeouts and settings, all states of the session and of the monitor, heartbeats at any time',
     'Tests watch one session for a second; premature cleanup depends on heartbeats arriving between two instructions of the monitor.',
     ['fairmq/shmem/Monitor.cxx'], [('Monitor::Watch, CheckHeartbeats, Monitor, ~Monitor', 'fairmq/shmem/Monitor.cxx')], level='other',
     note='One pass of the watch loop from any state (inductive); the heartbeat listener is bounded to three passes. ' + SHMM + 'The clock does not jump backwards.')

ZMQM = 'libzmq is replaced by ghost contracts (vc/zmqworld.h: reference-counted message buffers, any documented outcome of every call). '

prop('C04', 'A zeromq message refers to one live buffer, sized, aligned and freed once',
     'A zeromq message always refers to exactly one live libzmq buffer and gives it back exactly once, when it is destroyed, rebuilt or overwritten. Rebuilding gives the requested size and alignment and, for user memory, exactly that memory, which is handed back once through its free function. '
     'Shrinking succeeds exactly if the new size is not larger and keeps the bytes and the alignment; copying shares the bytes and the size with the original and leaves the original intact. A region block is acknowledged once with its address, size and hint after its last message is gone.',
     ['inputs', 'histories'], 'all message states (empty, filled, user memory, region block, shared), all sizes below 2^40, all power-of-two alignments, every byte of the payload, every operation of the message interface',
     'Tests create a few messages with small sizes; use after free, double free and lost alignment depend on which operation follows which and on sharing.',
     ['fairmq/zeromq/Message.h', 'fairmq/zeromq/UnmanagedRegion.h'], [('Message::Rebuild, SetUsedSize, Realign, Copy, CloseMessage, constructors', 'fairmq/zeromq/Message.h'), ('ZMsg', 'fairmq/zeromq/ZMsg.h')],
     note=BASE + ZMQM + 'The region outlives its messages.')

prop('C15', 'Zeromq transfers are complete, counted and honestly reported',
     'Sending a message over a zeromq socket hands its buffer to libzmq and returns and counts exactly its size; receiving returns and counts exactly the size received. Several parts are sent, and received, as one message: all of them, in order, counted once with the sum of their sizes. '
     'A transfer that fails, times out or is interrupted is reported as such, changes no counter and leaves the parts with the caller. Timeout 0 never blocks, a positive timeout is neither exceeded nor cut short, a negative one retries until interrupted. Destroying a socket closes it exactly once.',
     ['inputs', 'histories', 'fault_sequences'], 'all sizes below 2^40, all timeouts, every sequence of outcomes of libzmq (would-block, signal, termination, success), interruption at any time, any number of retries',
     'Tests see the outcomes one lucky run of libzmq produces; the retry loops have to be right for every sequence of errors and every timeout.',
     ['fairmq/zeromq/Socket.h', 'fairmq/zeromq/Common.h'], [('Socket::Send/Receive/Close', 'fairmq/zeromq/Socket.h'), ('ShouldRetry, HandleErrors', 'fairmq/zeromq/Common.h')], level='other',
     note='Single-part transfers are proved without bounds; multi-part transfers are bounded to 3 parts (any number of retries). ' + ZMQM + 'Multi-part messages are accepted and delivered as a whole (documented guarantee of libzmq).')

prop('C18', 'State waiting consumes queued states in order, one at a time, and never hangs',
     'Every state pushed to a state queue is returned by exactly one wait, in the order pushed. A timed wait returns the oldest state as soon as one is queued and nothing only after its timeout; an untimed wait blocks only while nothing is queued. '
     'Waiting with a custom condition reports truthfully whether a state was consumed or the condition ended the wait. Waiting for a particular state discards the states before it and stops at the first occurrence; clearing empties the queue. Every change of the queue wakes all waiting threads.',
     ['schedules', 'histories'], 'any number of queued states, any states, any number of wake-ups, pushes by other threads at any point where the lock is not held, all timeouts',
     'Tests push a few states from one thread; lost wake-ups, spurious wake-ups and a push between test and wait depend on the schedule.',
     ['fairmq/StateQueue.h'], [('StateQueue::{WaitForNext,WaitForState,WaitForNextOrCustom,WaitForCustom,WaitForStateOrCustom,Push,Clear}', 'fairmq/StateQueue.h')],
     note=BASE + 'std::queue is replaced by a FIFO model of unbounded length; other threads act only while the lock is not held (the lock discipline is proved); custom conditions of WaitForStateOrCustom stay true once they are.')

prop('C19', 'Semaphores never lose or invent a permit',
     'The counter of a semaphore is changed by each wait by exactly minus one and by each signal by exactly plus one, never falls below zero, a wait returns only after it has taken a permit and blocks only while there is none, and each signal wakes a waiter. '
     'All access to the counter is under the lock. Copies of a shared semaphore use the same counter.',
     ['schedules', 'histories'], 'all initial counts, any interference of other threads while the lock is not held, any number of wake-ups',
     'Tests run a few waits and signals; a missed notification or an unguarded access shows only under particular schedules.',
     ['fairmq/tools/Semaphore.h', 'fairmq/tools/Semaphore.cxx'], [('Semaphore::{Wait,Signal,GetCount}, SharedSemaphore', 'fairmq/tools/Semaphore.cxx')],
     note=BASE + 'Standard mutexes and condition variables behave as documented (spurious wake-ups included).')

prop('C20', 'State, transition and transport names convert both ways without loss',
     'Every device state, transition and transport has one name that converts back to it, two different ones never share a name, a text which is not a known name is refused with an error, and so is a value which is none of the enumerators.',
     ['inputs'], 'all enumerators, every other text, every value outside the enumerations',
     'Tests convert a few names; the tables have to be complete and injective, and every other text has to be refused.',
     ['fairmq/States.cxx', 'fairmq/States.h', 'fairmq/Transports.h', 'fairmq/TransportEnum.h'], [('GetState, GetStateName, GetTransition, GetTransitionName', 'fairmq/States.cxx'), ('TransportType, TransportName', 'fairmq/Transports.h')],
     note=BASE + 'Associative containers are replaced by a list model.')

prop('C21', 'Events reach exactly the subscribers of their type and key, also re-entrantly',
     'Emitting an event calls every current subscriber of its type and key once and no other, in whatever order subscriptions and emissions happen; a subscriber that registers again replaces its former subscription, unsubscribing removes exactly one subscription, '
     'and callbacks may subscribe, unsubscribe and emit themselves without deadlock.',
     ['inputs', 'histories'], 'every subscription state of two subscribers and three event kinds (type, key and payload), every operation on it',
     'Tests subscribe and emit in one order; wrong keys or types, doubled subscriptions and re-entrancy depend on the history.',
     ['fairmq/EventManager.h'], [('EventManager::{Subscribe,Unsubscribe,Emit}', 'fairmq/EventManager.h')], level='other',
     note='Bounded: at most two subscribers and three event kinds, but every reachable subscription state and every operation on it. boost::signals2 is replaced by a model of connection, disconnection and emission; concurrency is covered by the lock discipline on the signal table only.')

prop('C22', 'A multi-part message keeps its parts, their order and their ownership',
     'A container of message parts holds exactly the parts given to it in the order they were added, whatever is added, moved, taken out or cleared; every part is destroyed exactly once, parts taken out belong to the caller, and access outside is refused.',
     ['inputs', 'histories'], 'containers of up to three parts, every operation on them',
     'Tests add and read a few parts; ownership mistakes (lost or doubled parts) need the right operation on the right content and a count of live messages.',
     ['fairmq/Parts.h'], [('Parts::{AddPart,At,Release,Clear,...}', 'fairmq/Parts.h')], level='other',
     note='Bounded: containers of up to three parts. ' + BASE)

prop('C23', 'Memory from a transport stays valid until released and knows its message',
     'Memory obtained from a channel memory resource belongs to exactly one message of that transport with at least the requested size and alignment; releasing the memory destroys that message and no other, taking the message out of the resource keeps the data and hands it over exactly once. '
     'Without a transport no memory is handed out. Turning a container into a message keeps its bytes without copying when the memory came from the channel.',
     ['inputs', 'histories'], 'all sizes and alignments, up to three live allocations, every operation on the resource',
     'Tests allocate a few vectors; leaks and mixed-up messages depend on the order of allocation and release.',
     ['fairmq/MemoryResources.h', 'fairmq/MemoryResources.cxx', 'fairmq/MemoryResourceTools.h'], [('ChannelResource::{setMessage,getMessage,do_allocate,do_deallocate}', 'fairmq/MemoryResources.h'), ('getMessage', 'fairmq/MemoryResourceTools.h')], level='other',
     note='Bounded: up to three live allocations in the resource. ' + BASE + 'The map of messages is replaced by a list model.')

prop('C24', 'Channel settings are kept, copied and applied to the socket unchanged',
     'Every attribute of a channel is exactly what was last given to it - by construction, from properties, by an update or by copying - and no other attribute changes with it; attributes not given have their documented defaults. A changed or copied channel has to be validated again, and a copy never shares the connection, while a move takes it along. '
     'Opening a channel creates one socket of its type and name with its settings. When an endpoint cannot be bound, further ports of the configured range are tried (tcp with auto bind only) and the endpoint then names the port really bound.',
     ['inputs', 'histories'], 'all attribute values, all property sets of a channel, every sequence of bind outcomes',
     'Tests set a few attributes; a forgotten or swapped attribute in one of the many copies of the list is invisible unless every attribute has a distinct value on every path.',
     ['fairmq/Channel.h', 'fairmq/Channel.cxx', 'fairmq/Properties.h'], [('Channel constructors, assignment, Update*, Init, BindEndpoint', 'fairmq/Channel.cxx'), ('getters', 'fairmq/Channel.h')],
     note=BASE + 'The transport is abstract (a recording stand-in behind the interface). The configured port range is not empty; random numbers may be any value of their range; maps are replaced by a list model.')

prop('C25', 'Only properly configured channels are declared valid',
     'A channel is declared valid exactly if its name consists of letters, digits, -, _, # and brackets, its type is a known socket type, its address is not empty and every endpoint in it has a known protocol, a tcp endpoint with a port and any other with a name, each endpoint has a method (own or the channel\'s), and no buffer size or logging interval is negative. '
     'Unknown types and methods and negative sizes are errors; otherwise the answer is no. Validation changes no attribute, and a valid channel stays valid until changed.',
     ['inputs'], 'names of three arbitrary characters, every type text, every method text, addresses of up to two endpoints of every form, all settings',
     'Tests try a handful of valid and invalid channels; each rule has to hold for every combination of the others.',
     ['fairmq/Channel.cxx', 'fairmq/Channel.h'], [('Channel::Validate', 'fairmq/Channel.cxx')], level='other',
     note='Bounded: names of three characters, addresses of up to two endpoints; types, methods and settings are unbounded. ' + BASE + 'std::regex and boost::split are replaced by models.')

prop('C26', 'Messages cross channels unchanged, whatever transport made them',
     'Sending or receiving through a channel passes the message, or all parts in order, to the socket exactly once with the given timeout, or the channel\'s own, and returns the socket\'s result. A message made by another transport is sent with the same size and bytes, which stay alive until the transport releases them, and nothing is leaked or freed twice; a message of the channel\'s transport is passed on as it is.',
     ['inputs'], 'all message sizes and contents, all timeouts and results, messages of the own and another transport, empty or not; up to three parts',
     'Tests mix transports in a few combinations with small messages.',
     ['fairmq/Channel.h', 'fairmq/TransportFactory.h', 'fairmq/Message.h'], [('Channel::{Send,Receive,CheckSendCompatibility,CheckReceiveCompatibility}', 'fairmq/Channel.h')], level='other',
     note='Single messages are proved without bounds, multi-part transfers for up to three parts. ' + BASE + 'The transports are abstract (recording stand-ins behind the interfaces).')

prop('C16', 'The device state machine accepts exactly the documented transitions',
     'A transition request is accepted exactly if the documented state diagram has it for the current state and no other transition is waiting to be taken; an error is accepted in every state and even while another transition is pending, and after an error nothing else is accepted. '
     'An accepted request makes exactly the new state of the diagram pending, tells every transition subscriber once and wakes up whoever waits; a refused one changes nothing, tells nobody and reports failure.',
     ['inputs', 'histories', 'schedules'], 'every state, every transition, with and without a pending transition or an error, after any earlier result',
     'Tests walk the usual path through the diagram; the many forbidden combinations, pending transitions and the states after an error are not visited.',
     ['fairmq/StateMachine.cxx', 'fairmq/StateMachine.h', 'fairmq/States.h'], [('StateMachine::ChangeState', 'fairmq/StateMachine.cxx'), ('Machine_::transition_table', 'fairmq/StateMachine.cxx')],
     note=BASE + 'boost::msm is verified as the real code (its header templates are part of the compiled program); boost::signals2 is replaced by a model. Each state is reached by the shortest path of the diagram; the other fields of the machine are arbitrary.')

prop('C17', 'Every accepted state is prepared, announced and handled once, in order',
     'The worker takes every accepted state exactly once and in order (an error may replace a pending one), makes it the current state, and then prepares, announces and handles it, once each and without holding the lock. It ends only after EXITING or ERROR, with an exception exactly for ERROR. '
     'An exception in a callback brings the machine to ERROR, announced to all subscribers, and reaches the caller. Subscribers are called once per event, in the order of the number their key starts with, while subscribed; there is one handler at a time. Waiting for a pending state ends only when there is one, or at the timeout, and says which.',
     ['schedules', 'histories'], 'every sequence of accepted transitions, requested by any thread at any time, also from callbacks',
     'Tests run one sequence in one thread; lost or doubled states need requests at particular moments between the worker\'s steps.',
     ['fairmq/StateMachine.cxx'], [('Machine_::ProcessWork', 'fairmq/StateMachine.cxx'), ('StateMachine::{ProcessWork,Subscribe*,Unsubscribe*,WaitForPendingState*}', 'fairmq/StateMachine.cxx')],
     note=BASE + 'Other threads act at every lock acquisition, wait and callback according to the contract of ChangeState (C16). boost::signals2 is replaced by a model. The order of subscribers is checked for six sample keys (bounded).')

prop('C28', 'At most one plugin controls the device',
     'Device control is held by at most one plugin. Taking control or changing the state of the device succeeds only if nobody else is in control and makes the caller the controller; a plugin that is not in control is refused with DeviceControlError and changes nothing. Stealing control always succeeds. '
     'Only the controller can release control, which wakes everybody waiting for it; waiting for the release ends only when nobody is in control. The state change itself happens while control cannot be taken by anybody else, and its result is reported.',
     ['inputs', 'schedules'], 'any caller and any current controller, every transition and result, other threads taking, stealing and releasing control whenever the lock is not held, any number of wake-ups',
     'Tests use two plugins taking turns in one thread; a window between the check and the state change, or a lost wake-up, needs a particular schedule.',
     ['fairmq/PluginServices.cxx', 'fairmq/PluginServices.h'], [('PluginServices::{ChangeDeviceState,TakeDeviceControl,StealDeviceControl,ReleaseDeviceControl,GetDeviceController,WaitForReleaseDeviceControl}', 'fairmq/PluginServices.cxx')],
     note=BASE + 'StateMachine::ChangeState is used through its contract (C16).')

prop('C29', 'The configuration returns what was set and announces every change once',
     'Reading a property of the configuration returns the value last given to it, in its type or as text; a property never set or deleted does not exist, is reported as missing or replaced by the given default, and is never returned as another type. '
     'Updating changes existing properties only, several all or none. Every change is announced exactly once, with its key and new value, to the subscribers of its type and of its text form, after the change and without holding the lock; nothing else is announced and no other property changes. '
     'Selection by prefix or expression returns exactly the matching properties. A channel added to the configuration is read back from it with all its settings, at the next free index.',
     ['inputs', 'histories', 'schedules'], 'every key and value, every combination of present and absent properties, subscribers or none, another thread changing or deleting the property in between',
     'Tests set and read a few properties in one thread; a partial update, a stale announcement or a forgotten channel setting shows only for particular combinations or schedules.',
     ['fairmq/ProgOptions.cxx', 'fairmq/ProgOptions.h', 'fairmq/Properties.h', 'fairmq/Properties.cxx', 'fairmq/EventManager.h'],
     [('ProgOptions::{Set,Update,Get,Delete}Property*, GetProperties*, AddChannel, GetChannelInfo', 'fairmq/ProgOptions.cxx'), ('PropertyHelper', 'fairmq/Properties.cxx')], level='other',
     note='Bounded: up to three properties of types int, string and bool, up to three channels. ' + BASE + 'boost::program_options (the container of values) and boost::signals2 are replaced by models; parsing the command line is not covered.')
