#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate it)."""
import json, os
ALL="every flavour (ThingBuf, StaticThingBuf, async/blocking channels, static and dynamic)"
LOOMN="The repository's model-checking tests are not run by the test suite; the tests that are run use a handful of real-thread schedules and sequential scripts."
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed="cfg thingbuf_verif (src/verif.rs): instrumented atomics, cells, locks, parking and clock")))
CORE="src/lib.rs"; MP="src/mpsc.rs"; AS="src/mpsc/async_impl.rs"; BL="src/mpsc/blocking.rs"; WQ="src/wait/queue.rs"; WC="src/wait/cell.rs"; ER="src/mpsc/errors.rs"; RC="src/recycling.rs"; TB="src/thingbuf.rs"; ST="src/static_thingbuf.rs"
p("C01","Every accepted message is delivered exactly once and intact",
  "Every value whose push or send succeeded is handed to exactly one pop or receive, with exactly the contents its producer wrote, or is still in the queue; values of failed or abandoned sends are never delivered, and no receive returns a value nobody sent.",
  ["schedules","histories","configurations"],"all interleavings of producers and consumers, all capacities, all operation sequences incl. by-reference forms held open, in "+ALL,
  LOOMN+" Duplication or loss needs a particular overlap of claims and publications at a particular lap.",
  [CORE,MP,TB,ST],[("slot claim by CAS on tail/head, publication by slot state","src/lib.rs push_ref/pop_ref"),("Ref drop publishes the slot","src/lib.rs impl Drop for Ref")],
  [dict(name="Slot.state",meaning="generation/phase of the slot",where=CORE),dict(name="head/tail",meaning="claim counters with generation and closed bit",where=CORE)],
  ["ThingBuf::push/pop*","Sender::send*/try_send*","Receiver::recv*/try_recv*"])
p("C02","Messages come out in the order they went in",
  "Messages are received in FIFO order: if one send or push was over before another began, its message is not received after the other's; with a single consumer, the messages of each producer are received in the order that producer sent them.",
  ["schedules","histories","configurations"],"all interleavings, all capacities and laps, in "+ALL,
  LOOMN+" Reordering needs wrap-around plus concurrent claims.",
  [CORE,MP],[("slots are claimed in index order by CAS on tail, and consumed by CAS on head","src/lib.rs push_ref/pop_ref/next")],None,["receive order"])
p("C03","Capacity is exact: never exceeded, never refused while available",
  "A queue of capacity N never holds more than N messages, accepts a message whenever the message sent N places before it has been received and its slot released (so always while fewer than N slots are occupied, if received references are released in the order received), and reports Full only if at some moment during the call that earlier message was still queued or held; an attempt refused as Full has no effect.",
  ["schedules","histories","configurations"],"all capacities including 1 and non-powers of two, any number of laps, all interleavings, in "+ALL,
  "The tests sample a few capacities sequentially; full/not-full misjudgement depends on generation arithmetic and on the race between the head check and a concurrent pop.",
  [CORE],[("comparison of slot state and head with the tail generation","src/lib.rs push_ref"),("index/generation arithmetic","src/lib.rs Core::new/next")],None,["push/try_send result"])
p("C04","Empty is reported only when nothing is ready to be received",
  "A pop or non-blocking receive returns a message if one has been completely sent and is next in line; it reports Empty only if, at some moment during the call, the next message in line had not yet been completely sent (or there was none), and then it has no effect.",
  ["schedules","histories","configurations"],"all interleavings of senders and receivers, all capacities and laps, in "+ALL,
  "A spurious Empty needs a message published at a particular point of the pop loop, or a particular lap.",
  [CORE,MP],[("comparison of slot state and tail with the head","src/lib.rs pop_ref")],None,["pop/try_recv result"])
p("C05","Slots, waiters and wakers are never raced on or used after free",
  "No schedule makes two threads access the same element or the same internal waiter record concurrently without ordering between them, and nothing is accessed after it was freed or went out of scope; in particular everything a producer wrote to a message before completing the send is visible to the consumer which receives it.",
  ["schedules","histories"],"all interleavings and all memory orderings the Rust memory model allows, incl. stale reads, for all operations incl. cancellation, timeout, close and teardown",
  "On x86 hardware, weak orderings behave as strong ones, and races and dangling waiters rarely crash; the loom models that could show them are not run and cover few scenarios.",
  [CORE,WQ,WC,BL,AS],[("acquire/release on slot state","src/lib.rs"),("waiter list guarded by a mutex, node unlinked before it goes out of scope","src/wait/queue.rs"),("wait cell lock bits","src/wait/cell.rs")],None,["accesses to cells, atomics and freed memory"])
p("C06","Non-blocking operations always return",
  "push, pop, try_send, try_recv, their by-reference forms, len and is_closed finish in a bounded number of their own steps once the other threads stop interfering, even while some thread holds an element reference or is stalled in the middle of an operation on the queue; in these cases they report Full or Empty. Polls of futures finish as well, except while another thread is stalled right in the middle of waking the one being polled.",
  ["schedules","histories"],"all points at which other threads stall (outside the short lock-protected wake-up section), all sets of element references held open, all capacities",
  "No test stalls a thread in the middle of an operation or holds references across a wrap of the ring.",
  [CORE,MP],[("retry loops re-read the counters and give up","src/lib.rs push_ref/pop_ref/len"),("poll loops","src/mpsc/async_impl.rs, src/mpsc.rs")],None,["termination of calls"])
p("C07","A waiting receiver never sleeps through a message or the close",
  "Whenever a receiver is waiting (blocked thread or pending future/poll) and a message next in line has been completely sent, or all senders are gone, it has been or will be woken without any further operation and obtains the message or the end of the stream.",
  ["schedules","histories"],"all interleavings of waiting, sending, waker replacement and sender drop, in the async and blocking, static and dynamic channels",
  LOOMN+" A lost wake-up needs the notification to fall into a window of a few instructions.",
  [WC,MP,AS,BL],[("wait cell PARKING/NOTIFYING/TX_CLOSED protocol","src/wait/cell.rs"),("re-check after registering","src/mpsc.rs poll_recv_ref"),("notify on SendRef drop and on last sender drop","src/mpsc.rs, async_impl.rs, blocking.rs")],None,["wake-ups; quiescent states"])
p("C08","A waiting sender does not sleep forever while the receiver keeps receiving",
  "If senders are waiting for capacity and the receiver keeps receiving (or releasing received references), every waiting sender is eventually woken and completes its send: it never happens that all activity has ceased, all messages have been received and released, the receiver is alive, and a sender is still asleep; nor is one sender passed over again and again in favour of others which began to send after it had gone to sleep.",
  ["schedules","histories"],"all interleavings of waiting, sending, receiving and cancelling, any number of senders, async and blocking, static and dynamic channels",
  LOOMN+" Losing a notification needs overlap of enqueueing, dequeueing, barging senders and cancellation.",
  [WQ,AS,BL],[("wait queue EMPTY/WAITING/WAKING protocol","src/wait/queue.rs"),("notify on RecvRef drop","src/mpsc.rs NotifyTx")],None,["wake-ups; quiescent states"])
p("C09","Abandoned operations leave no trace",
  "A send or receive given up before completion (its future dropped after any number of polls, or its timeout expired) delivers no message, loses none, holds no capacity, and does not swallow a wake-up another waiting sender needed.",
  ["schedules","histories"],"all points at which a future may be dropped or a timeout may expire relative to notifications and closing, any number of other waiters",
  "The tests cancel in one or two fixed situations; the harmful window is between a notification being assigned to a waiter and that waiter running again.",
  [AS,BL,WQ],[("PinnedDrop of the send future removes the waiter","src/mpsc/async_impl.rs"),("timeout path","src/mpsc/blocking.rs send_ref_timeout/recv_ref_timeout"),("Waiter::remove","src/wait/queue.rs")],None,["histories with cancelled futures and timeouts"])
p("C10","After the last sender is gone the receiver drains, then sees Closed",
  "When all senders have been dropped (also when dropped by a panicking thread), the receiver still obtains every message sent before, and from then on every receive reports the channel closed; as long as a sender exists, no receive reports it closed.",
  ["schedules","histories"],"all interleavings of clone, drop, send and every form of receive; any number of sender handles",
  "Tests check fixed sequences; the close can overlap with a waiting, polling or timing-out receiver, with handle cloning, and with unwinding.",
  [MP,AS,BL,WC],[("sender count, closed bit, close_tx","src/mpsc/async_impl.rs Drop for Sender"),("pop_ref Closed vs Empty","src/lib.rs"),("WaitResult::Closed","src/wait/cell.rs")],None,["results of receive operations"])
p("C11","After the receiver is gone every send fails as Closed and hands back its value",
  "Once the receiver has been dropped (also by a panicking thread), every later send attempt, and every send that is waiting or goes on to wait, fails with a Closed error which carries the unsent value back; error classification (Full, Closed, Timeout, Empty) and the value carried always tell the truth.",
  ["schedules","histories"],"all interleavings of waiting, notified and starting senders with the drop of the receiver, all send forms",
  "Only few schedules of close vs. enqueue are run; error predicates are not tested at all.",
  [MP,WQ,ER,AS,BL],[("close_rx sets the closed bit and closes the wait queue","src/mpsc.rs close_rx"),("WaitQueue::close wakes all","src/wait/queue.rs"),("error types","src/mpsc/errors.rs")],None,["results of send operations and error accessors"])
p("C12","Each element is dropped exactly once and teardown is clean",
  "Every element the queue ever created or was given is dropped exactly once, by the time queue, handles and received values are gone, whatever is still queued, held or unsplit at that point; nothing uninitialised is dropped, and teardown never panics.",
  ["histories","schedules","configurations"],"all histories (any fill level, lap, closed or not), all orders in which handles are dropped by concurrent threads, all flavours",
  "Tests count drops for a few fixed fill levels; leaks and double drops depend on the exact lap, index and close state at teardown.",
  [CORE,TB,ST,AS,BL],[("drop_slots uses tail generation to find initialised slots","src/lib.rs drop_slots"),("Arc'd inner dropped by last handle","src/mpsc/*")],None,["element constructor/destructor log"])
p("C13","Elements are recycled in place exactly as the policy says",
  "A slot's element is created by the recycling policy's constructor at most once, and before every reuse it is handed to the policy's recycle function; so a by-reference push or send always starts from a fresh or recycled element (never stale contents), reuses the same element instead of allocating a new one, and by-value receives leave a fresh element behind.",
  ["histories","schedules","configurations"],"all histories of by-value and by-reference operations, all laps, all flavours, every policy",
  "Tests look at a few laps of one flavour; stale contents require a specific mix of operations and laps.",
  [CORE,RC,MP],[("new_element on generation 0, recycle afterwards","src/lib.rs push_ref"),("recycling::take on by-value receive","src/recycling.rs, src/mpsc.rs, src/thingbuf.rs")],None,["policy call log, element identity"])
p("C14","len, is_empty, remaining and capacity are truthful",
  "Without concurrent operations, len is the number of messages not yet received plus slots currently held for writing, is_empty means len is zero, remaining is capacity minus len and capacity is what was asked for; with concurrent operations, len is a value between 0 and capacity consistent with the messages present at some moment during the call.",
  ["histories","schedules","configurations"],"all head/tail positions and generations for all capacities, all interleavings",
  "The tests query a few positions; the arithmetic has separate cases for wrapped, equal and generation-differing positions.",
  [CORE,TB,ST],[("Core::len","src/lib.rs")],None,["ThingBuf/StaticThingBuf len, is_empty, remaining, capacity"])
p("C15","Timeouts neither fire early nor late",
  "A send or receive with a timeout fails with Timeout only if the timeout has fully elapsed and the queue was full (for a receive: had no message ready) at some moment during the call; it returns by the time the timeout has elapsed (plus scheduling), however often it is woken without success, and reports Closed or succeeds without waiting for the timeout when that becomes possible.",
  ["schedules","histories"],"all interleavings of wake-ups, spurious unparks, competing senders, closing and the clock",
  "Tests with real clocks cover one timeout and one success; repeated unsuccessful wake-ups and the race of timeout against notification are never exercised.",
  [BL],[("park_timeout with elapsed check","src/mpsc/blocking.rs recv_ref_timeout/send_ref_timeout")],None,["return value and virtual time of *_timeout"])
p("C16","A pending poll wakes the waker given most recently",
  "If a future or poll function returns Pending, then when progress becomes possible the waker passed to the most recent poll is woken (for each waiting sender and for the receiver), and tasks moved to another waker between polls are never stranded; a pending operation is woken even if the notification arrives while the waker is being replaced.",
  ["schedules","histories"],"all sequences of polls with changing wakers, interleaved with notifications and closing, for async send and receive",
  "Tests poll with a single waker from block_on-like executors.",
  [WC,WQ,AS],[("wait_with replaces the stored waiter","src/wait/cell.rs"),("continue_wait updates the waiter if not will_wake","src/wait/queue.rs")],None,["wakers invoked"])
p("C17","Static and dynamic, std and no_std flavours behave alike; split happens once",
  "The static flavours (which can be used without allocation) and the no_std build give the same results as the dynamically allocated std ones for the same operations; a static channel is split successfully exactly once however many threads try, and later attempts are refused.",
  ["histories","configurations","schedules"],"all operation histories, all capacities, both builds; all interleavings of split attempts",
  "The static and dynamic code paths are duplicated in the sources and only some of the copies have tests; the no_std build has none.",
  [ST,TB,AS,BL,"src/util/mutex/spin_impl.rs"],[("duplicated implementations","src/mpsc/async_impl.rs, src/mpsc/blocking.rs"),("is_split swap","StaticChannel::try_split")],None,["all public operations"])
p("C18","Any capacity and any number of laps work; capacity zero is rejected",
  "For every capacity from 1 upwards, power of two or not, and after any number of laps around the buffer, the queue keeps its order, capacity bound and contents, and never touches memory outside its slots; constructing a queue or channel with capacity zero is rejected instead of misbehaving.",
  ["configurations","histories"],"all capacities, all head/tail positions and generations including counter wrap-around",
  "Tests use a few small capacities and few laps.",
  [CORE],[("index/closed/generation bit layout","src/lib.rs Core::new, idx_gen, next"),("capacity assertion","constructors")],None,["all operations, capacities 1..N over many laps"])
p("C19","The channel counts its senders correctly",
  "is_closed on the receiver is true exactly when all senders have been dropped; cloning and dropping handles in any order from any threads neither closes the channel early nor keeps it open.",
  ["schedules","histories"],"all interleavings of clone, drop and is_closed, any number of handles, all channel flavours",
  "is_closed has no test; handle counting is only exercised sequentially.",
  [AS,BL],[("tx_count","src/mpsc/*: Clone/Drop for Sender, is_closed")],[dict(name="tx_count",meaning="number of live sender handles",where="src/mpsc.rs")],["is_closed, close on last drop"])
p("C20","Recycling policies honour their documented bounds",
  "The capacity-keeping policy (WithCapacity) creates elements with at least its minimum capacity; a recycled element is empty, keeps its allocation when its capacity is within the policy's maximum, and is shrunk to the maximum, but not below it, when it had grown past it (up to the collection's own rounding); the policy's accessors and defaults tell the truth. The default policy creates the default value and recycles to it in place; policies behind an Arc behave as the policy they share.",
  ["inputs","configurations"],"all minimum/maximum settings and all element sizes and capacities, for every supported collection type",
  "The tests cover one or two values of one type.",
  [RC],[("WithCapacity::new_element/recycle","src/recycling.rs")],None,["Recycle implementations"])
p("C21","A panic in user code does not break the queue",
  "If a closure, a recycling policy, or the cloning of a waker supplied by the user panics during an operation, the panic reaches the caller, and the queue remains memory-safe: other messages are still delivered once and in order, every initialised element is dropped once, waiting parties are still woken, and further operations neither panic internally nor hang.",
  ["fault_sequences","histories"],"all positions at which user code can panic, in all histories before and after",
  "No test makes user code panic.",
  [CORE,WC,WQ,MP],[("Ref publishes on unwind","src/lib.rs Drop for Ref"),("catch_unwind around waker clone","src/wait/cell.rs")],None,["operations with panicking callbacks"])
p("C22","Callbacks may use the queue",
  "User code which the queue runs may use the same queue: a waker may poll or drop the waiting future (and the handles it owns) from within a wake-up, or when its last reference goes away, and the closures of push_with and pop_with may send and receive. Nothing deadlocks, panics or touches freed memory because of that, and all the other guarantees still hold.",
  ["schedules","histories"],"all wakers which keep their task alive, poll it in place or drop it, in all interleavings; all nestings of operations in closures",
  "Every test uses an executor whose wakers only set a flag or unpark a thread.",
  [WC,WQ,AS,TB],[("wakers run after unlocking","src/wait/queue.rs notify_slow, close, continue_wait_slow"),("notify2 takes the waker out first","src/wait/cell.rs"),("push_with/pop_with hold no lock","src/thingbuf.rs")],None,["wake, drop of wakers, closures"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
