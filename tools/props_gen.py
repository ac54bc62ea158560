import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over.split(),text=q),why_tests_cant=why,
      anchors=dict(files=["xtra/src/"+f if not f.startswith("macros") else f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m) for n,m in state]
    P.append(d)

p("C01","Messages of equal priority are handled in the order they were queued",
 "Two messages of equal priority that are both put into the queue of a mailbox (or both broadcast to it) are taken out in the order in which they were put in, however many other messages are queued and in whatever order receives are interleaved.",
 "schedules inputs histories","every pair of sends of equal priority, for every content of the queue and every history of pushes and pops in between",
 "Whether equal elements of a heap keep their order depends on how many are queued and on the history of pushes and pops; the tests queue two or three messages.",
 ["chan.rs","chan/priority.rs"],[("queueing a message","chan.rs: sending to one and to all"),("order of queued messages","chan/priority.rs: ordering of queue elements")],
 [("queue order","the key by which the queues order their elements")])
p("C02","A message of higher priority is handled before one of lower priority",
 "When a receive finds several messages queued for its actor, sent to one or broadcast, it takes one whose priority is not lower than that of any other (a receive that already waits may take the message it is woken for); a shutdown broadcast ranks above every message. The priority given to a send is the priority the queued message has.",
 "schedules inputs histories","every pair of priorities and every content of both queues of the mailbox",
 "The tests sample a few priorities and small queues; which of the two queues is chosen depends on what both of them hold.",
 ["chan.rs","chan/priority.rs","send_future.rs"],[("choice between the two queues","chan.rs: receiving"),("order of queued messages","chan/priority.rs"),("setting a priority","send_future.rs: priority of a pending send")])
p("C03","Blocked senders are admitted by priority, then by arrival",
 "When room appears in a full mailbox, the sender that is admitted is one with the highest priority among those still waiting, and among equals the one that has waited longest. A sender whose send was given up is never admitted in place of one that still waits.",
 "schedules inputs histories","every number, priority and order of waiting senders, including those already cancelled",
 "Needs several blocked senders with equal and different priorities, some cancelled; the tests block one sender.",
 ["chan.rs","chan/waiting_sender.rs"],[("choosing the sender to admit","chan.rs: taking a message after a pop"),("waiting sender","chan/waiting_sender.rs")],
 [("waiting senders","senders that found the mailbox full, in order of arrival")])
p("C04","A bounded mailbox never holds more messages than its capacity",
 "For a mailbox of capacity n (n at least 1), at most n messages sent to one actor and at most n broadcasts are queued at any time, and a send to one actor is made to wait only when that many are queued; an unbounded mailbox never makes a send wait. A message that a cancelled receive gives back is exempt.",
 "schedules inputs histories configurations","every capacity, every content of the queues, every interleaving of senders and receivers",
 "The limit must hold at every moment of every interleaving of senders and receivers; tests look at single-threaded snapshots with capacities 1 and 2.",
 ["chan.rs"],[("queueing a message","chan.rs: sending to one and to all"),("refilling after a receive","chan.rs: popping from either queue")],
 [("capacity","limit that applies separately to messages sent to one and to broadcasts")])
p("C05","No accepted message is lost or delivered twice",
 "A message that was accepted by a mailbox is handled exactly once by an actor, unless every mailbox of the channel is dropped or the waiting send is given up first: in particular giving up a pending receive passes on a message that had already been handed to it, and no message is discarded or returned twice.",
 "schedules crash_points histories","every interleaving of sends, receives and cancelled receives and sends",
 "The loss or duplication of a message needs a cancellation at one particular point between the hand-over and the next poll; tests cancel at one or two points.",
 ["chan.rs","recv_future.rs","chan/waiting_receiver.rs","chan/waiting_sender.rs"],[("cancelling a receive","recv_future.rs: dropping a pending receive"),("handing a message to a waiting receiver","chan/waiting_receiver.rs"),("taking a waiting message","chan/waiting_sender.rs")])
p("C06","Room in a full mailbox admits a waiting sender",
 "When a receive takes a message out of a bounded mailbox and some sender of that kind still waits for room, then by the end of that receive a waiting message has been moved into the queue, unless the queue is still full.",
 "schedules histories","every content of the queue and of the waiting senders, cancelled senders included",
 "A sender left behind only shows when nothing else happens afterwards; it takes a particular combination of cancelled and live waiting senders.",
 ["chan.rs","chan/waiting_sender.rs"],[("refilling after a receive","chan.rs: popping from either queue"),("taking a waiting message","chan/waiting_sender.rs")])
p("C07","A pending operation is always woken when it can make progress",
 "Whenever polling a send, a receive, a reply, a join or a scoped task returns pending, the task's current waker is registered with whatever completes the operation; and whoever completes or closes it wakes that task.",
 "schedules","every interleaving of polls (with changing wakers) and completions",
 "A lost wake-up needs one specific interleaving or a waker that changes between polls; a test that passes has only seen the interleavings it ran.",
 ["chan/waiting_sender.rs","chan/waiting_receiver.rs","send_future.rs","recv_future.rs","scoped_task.rs","address.rs"],[("waiting sender state","chan/waiting_sender.rs"),("waiting receiver","chan/waiting_receiver.rs"),("join handle","address.rs")])
p("C08","Reference counts of addresses and mailboxes match the live handles",
 "The number of strong addresses and the number of mailboxes a channel believes in always equal the number that exist: creating, cloning, converting, downgrading, upgrading and dropping handles, and every operation holding one, changes them by exactly the handles gained or lost. A weak address upgrades only while a strong one exists.",
 "schedules programs histories","every sequence of handle operations, on every path of every operation, under every interleaving",
 "A count that is off by one shows only after a particular sequence of operations, as an actor that stops early or never; tests exercise a few sequences.",
 ["chan/ptr.rs","chan.rs","address.rs","message_channel.rs"],[("reference counting","chan/ptr.rs: clone, conversion and drop of handles"),("counters","chan.rs")],
 [("strong addresses","how many strong addresses exist"),("mailboxes","how many mailboxes exist")])
p("C09","Dropping the last strong address stops every waiting receive",
 "When the last strong address is dropped, every receive waiting on the mailbox is completed with a shutdown; while a strong address exists, neither a drop of another handle nor a receive on an empty mailbox shuts a receive down. Messages still queued are received before the shutdown is.",
 "schedules histories","every interleaving of drops of addresses with receives and sends",
 "The last drop has to race with a receive that is just about to wait; a test sees one order.",
 ["chan.rs","chan/ptr.rs","chan/waiting_receiver.rs"],[("last strong address","chan.rs: dropping a sender"),("empty mailbox","chan.rs: receiving")])
p("C10","When the last mailbox is dropped all queued and waiting sends fail",
 "Dropping the last mailbox of a channel discards the queued messages, fails every waiting send with a disconnection and wakes everything that waits for the actor to stop; dropping another mailbox does none of that. No message is queued or left waiting in a channel that has lost its last mailbox.",
 "schedules crash_points","every interleaving of sends with the drop of the last mailbox",
 "A send that passes its connectivity test just before the last mailbox goes away needs one particular interleaving.",
 ["chan.rs","chan/waiting_sender.rs"],[("last mailbox","chan.rs: dropping a receiver"),("connectivity","chan.rs: sending to one and to all")])
p("C11","A send reports exactly what happened to its message",
 "A send that waits for the reply yields the value the handler returned for that very message; it reports an interruption only if the message was accepted and then discarded without a reply, and a disconnection only if the message was never accepted. A detached send and a broadcast succeed exactly when the message was put into the mailbox.",
 "schedules histories","every interleaving of a send with receives, drops and shutdowns",
 "The outcome depends on when the actor stops relative to the send; tests cover one order per outcome.",
 ["send_future.rs","envelope.rs","chan.rs"],[("outcome of a send","send_future.rs: polling a send"),("reply","envelope.rs")])
p("C12","The run loop handles messages until the actor is told to stop",
 "Running an actor calls its start hook once before any message, then handles the received messages one at a time until one of them (or a shutdown) stops it, then calls its stop hook exactly once and yields what that returned; handling one message at a time does the same for a single message.",
 "schedules histories programs","every sequence of messages and stop requests",
 "Must hold for every sequence of received messages and every point at which a stop arrives.",
 ["lib.rs"],[("run loop","lib.rs: running an actor"),("single step","lib.rs: yielding once")])
p("C13","Each received message is handled once, on the receiving actor, and replied to",
 "Dispatching a received message calls the handler of that message exactly once, on the given actor and with a context of the mailbox it was received from, and gives the handler's result to whoever waits for the reply, after the handler is done. The dispatch tells the loop to stop exactly if the handler asked to stop or the message was a shutdown.",
 "inputs schedules programs","every kind of message, every handler, and every point at which the dispatch is polled or given up",
 "Concerns every kind of envelope crossed with every way a handler can suspend and stop.",
 ["envelope.rs","dispatch_future.rs"],[("dispatching","dispatch_future.rs"),("envelopes","envelope.rs: handling")])
p("C14","Stopping one actor stops only that one, stopping all stops every one",
 "An actor that stops itself leaves its loop after the current message without affecting other actors on the same address; stopping all (while the address is alive) delivers a shutdown to every mailbox of the channel, ahead of everything else that is queued.",
 "schedules histories","every number of actors on one address and every content of their mailboxes",
 "Needs several actors sharing an address, in every combination of idle, busy and queued.",
 ["context.rs","chan.rs","envelope.rs"],[("stopping oneself","context.rs"),("stopping all","chan.rs: shutting down all receivers")])
p("C15","A broadcast reaches every live mailbox exactly once",
 "A broadcast that succeeds is queued exactly once for every mailbox that is alive at that moment, skipping none and none twice, and every waiting receive is told about it; a new mailbox takes part in every broadcast from then on.",
 "schedules histories configurations","every number of mailboxes, including ones already dropped, and every number of waiting receives",
 "Depends on the number of mailboxes and on which of them were dropped before; tests use two.",
 ["chan.rs","chan/ptr.rs","mailbox.rs"],[("broadcasting","chan.rs: sending to all"),("registering a mailbox","chan.rs: new broadcast mailbox")])
p("C16","No operation deadlocks on, or keeps, the channel's locks",
 "No operation takes a lock it already holds, all operations nest their locks in the same order, none returns or suspends with a lock held, and no handler runs and no message is destroyed while the mailbox is locked.",
 "schedules programs","every path of every operation, every content of the mailbox and every destructor a message may have",
 "A deadlock needs two threads at particular points, or a message whose destructor uses the same mailbox; tests have neither.",
 ["chan.rs","chan/waiting_sender.rs","chan/ptr.rs"],[("mailbox lock","chan.rs: every operation on the mailbox"),("waiting sender lock","chan/waiting_sender.rs")])
p("C17","Equality, ordering and hashing of addresses agree with each other",
 "Two addresses are equal exactly if they are of the same channel and of the same strength where that matters to the comparison; the ordering is total and consistent with equality, and equal addresses have equal hashes. Asking whether two addresses are of the same actor depends on the channel alone.",
 "inputs","every pair of addresses, strong or weak, of the same or of different channels",
 "A statement about all pairs of handles of all kinds; tests compare a few.",
 ["address.rs","chan/ptr.rs","message_channel.rs"],[("comparison of addresses","address.rs, chan/ptr.rs"),("comparison of message channels","message_channel.rs")])
p("C18","A message channel behaves like the address it was made from",
 "Sending, cloning, downgrading, upgrading, joining and asking for length, capacity and connectivity through a message channel have exactly the effect of the same operation on the address it was made from.",
 "inputs programs","every operation of every kind of message channel",
 "Every operation of three kinds of channel would have to be compared with that of the address in every state.",
 ["message_channel.rs"],[("message channels","message_channel.rs")])
p("C19","A join completes exactly when the actor has stopped",
 "Waiting for an actor to stop completes once the channel has lost its last mailbox, also if that happened or happens while the wait is being set up, and not before (through a weak address also at once when no strong address is left); a task scoped to an actor yields its result if it finishes before that and nothing otherwise.",
 "schedules","every interleaving of creating and polling the wait with the actor's stop",
 "The stop has to fall between the check and the registration to be missed.",
 ["address.rs","scoped_task.rs","chan.rs"],[("join handle","address.rs"),("scoped task","scoped_task.rs"),("disconnect listener","chan.rs")])
p("C20","Waiting inside a handler keeps handling messages and loses nothing",
 "Selecting or joining a future with the actor's message loop yields the future's result as soon as it is ready, goes on handling messages until then, and never drops a received message; if the actor is stopped first, the select yields the unfinished future and the loop ends.",
 "schedules histories","every interleaving of the future's progress with received messages",
 "The future and the message loop may become ready in any order and in the same poll.",
 ["lib.rs"],[("select and join","lib.rs")])
p("C21","The priority requested for a send is the one it gets",
 "A message is queued, or waits for room, with exactly the priority that was asked for it, or with the default priority if none was; asking does not change anything else about the send.",
 "inputs","every priority and every kind of send",
 "Every priority crossed with every kind of send and every state of the mailbox.",
 ["send_future.rs","envelope.rs"],[("setting a priority","send_future.rs"),("priority of an envelope","envelope.rs")])
p("C22","Length, capacity and connectivity report the state of the mailbox",
 "The reported capacity is the one the mailbox was created with; the reported length counts the queued messages, unicast and broadcast; an address is connected exactly while a mailbox and a strong address exist, and asking changes nothing.",
 "inputs schedules histories configurations","every state of a mailbox",
 "Must hold in every state that any history of operations can produce.",
 ["chan.rs","address.rs","message_channel.rs"],[("state queries","chan.rs: length, capacity and connectivity")])
p("C23","A terminated receive says so, and only then",
 "The receive future reports that it has terminated exactly if it has yielded its message; polling it again afterwards is the only misuse.",
 "schedules histories","every sequence of polls",
 "Must hold after every sequence of polls and in every state of the receive.",
 ["recv_future.rs"],[("fused receive","recv_future.rs")])
p("C24","Misuse that the types forbid does not compile, and the rest does",
 "A message can only be sent to an actor that handles it; a broadcast needs a cloneable message without a result; addresses can be sent to other threads exactly as messages can; sends that were detached cannot be detached again.",
 "programs","every program using the library",
 "A test suite that compiles contains no program which must not compile.",
 ["address.rs","send_future.rs","message_channel.rs","lib.rs"],[("bounds of the public interface","address.rs, message_channel.rs, lib.rs, send_future.rs")])
p("C25","The derived actor implementation is the trivial actor",
 "Deriving the actor trait for any type yields an actor whose stop value is the unit and that otherwise has the default behaviour, whatever generics the type has.",
 "programs","every type the derive is applied to",
 "The derive has to work for every type, with every combination of generics and bounds.",
 ["macros/src/lib.rs"],[("derive macro","macros/src/lib.rs")])
p("C26","Spawning runs the actor in the background and returns its address",
 "Each spawn function runs the given actor on the given mailbox, exactly once, as a task of the runtime that goes on after the call, keeps no address for that task, and returns the given address without changing the counts of addresses and mailboxes.",
 "configurations programs","every supported runtime",
 "Tests run on the few runtimes they are configured with.",
 ["spawn.rs"],[("spawn functions","spawn.rs")])
p("C27","Enabling instrumentation changes nothing but the tracing",
 "With instrumentation enabled the library queues, delivers, orders, counts, wakes and locks exactly as without it.",
 "configurations schedules","every operation with instrumentation on",
 "The tests run almost everything with one configuration.",
 ["instrumentation.rs","instrumentation/stub.rs","envelope.rs"],[("instrumentation","instrumentation.rs, envelope.rs")])
p("C28","Operations used as documented do not panic",
 "No operation of the library panics, whatever the state of the channel and whatever other operations ran or run, when it is used as documented: polling a future again after it has yielded, panics of user code, overflow and running without the required runtime apart.",
 "inputs schedules histories","every operation of the public interface, in every state its arguments and the channel can be in",
 "The library asserts its internal states in many places; an assertion that fails does so in a state no test has reached.",
 ["chan.rs","send_future.rs","recv_future.rs","envelope.rs","chan/waiting_sender.rs","chan/waiting_receiver.rs"],[("states of a waiting sender","chan/waiting_sender.rs"),("states of a receive","recv_future.rs"),("states of a send","send_future.rs"),("taking the message out of an envelope","envelope.rs")])
p("C29","A sink of an address or a message channel sends each item once, in order, as the address would",
 "A sink made from an address (or a message channel) keeps exactly that address until it is dropped, sends every item it takes exactly once and with the default priority, is ready for the next item only after the last one was handled, stays pending until then, and fails exactly if the send of the item fails.",
 "inputs schedules histories","every state of the mailbox in which an item is given to the sink, and every interleaving with the actor",
 "The sink has to be right in every state of the mailbox, in particular when it is full or loses its actor while an item waits.",
 ["address.rs","message_channel.rs"],[("sink of an address","address.rs"),("sink of a message channel","message_channel.rs")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
