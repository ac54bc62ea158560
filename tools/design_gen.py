import json,os
head=open('/verif/DESIGN.md').read().split("\n## Properties")[0]
head=head.replace("Panics, arithmetic overflow and weak memory orderings are out of scope.\n","Poisoned locks, panics of user code, arithmetic overflow and weak memory orderings are out of scope\n(panics of the library itself are C28).\n").rstrip()
P=[
("C01","`Pairs` (r_order): the harness queues message 1, does arbitrary other things (the state is forgotten up to what the lock protects), queues message 2 of equal priority; the queue's own `Ord::cmp` is then interpreted on the two elements. Must come out Greater for the first.","all numbers of queued messages, all histories between the two; 21 s","what the comparison says of two elements settles every heap content; a test samples three messages"),
("C02","`Pairs prio` as above with different symbolic priorities (also against a shutdown), and `Choice`: at each pop, in the same critical section, the other queue is proved empty or its head not higher.","both queues of arbitrary content, all u32 priorities; 62 s","the choice depends on both queues at the moment of the lock"),
("C03","`AdmitOrder`: the list of waiting senders is shaped to exactly n = 2 (quick) arbitrary elements (alive, cancelled, any priority); the one whose message is taken must be proved maximal, and earlier among equals, among those alive. `Admission` adds that a live one is taken at all.","lists of two senders exactly (three is too expensive: > 15 min); the order relation is pairwise, so two show every pairwise mistake, not one that needs a third; 69 s","cancelled and equal senders combined"),
("C04","`Capacity`: at every push into a queue, `len + 1 <= cap` is entailed by the zone; at every wait, `cap <= len`. `Tail`: the broadcast counter is at least every queue's length at each unlock (give-back of a cancelled receive exempt).","any capacity, any number of queued messages; 47 s","holds at each unlock of every interleaving"),
("C05","`NoLoss`: a linear-ownership automaton: a message value taken out of a queue, waiting sender or one-shot channel ends in exactly one of result, queue, waiting sender, other one-shot channel; destroyed only if the operation's own send failed.","every operation that touches messages, including dropping pending receives and sends in every state; 26 s","the cancellation point is quantified over, as any state of the future is a start state"),
("C06","`Admission`: after a pop from a bounded queue, by unlock: a waiting message was pushed, or no sender waits (list proved empty or all dead), or the queue is proved full.","any list and queue; 55 s","needs particular combinations of cancelled and live senders"),
("C07","`Wakers` (Pending implies the current waker registered with the completer), `WakeOnChange` (whoever completes or closes a waiting sender wakes it), `RecvSections wait`, `QueueWhileWaiting` (nothing is queued past a waiting receive), `Join`.","every poll from every state of the future; 92 s","lost wake-ups need one interleaving"),
("C08","`RefBalance`: net change of the two counters = net change of live handles, for some 60 operations; `Upgrade`: the CAS of an upgrade never increments from zero; `Handle`: what a converted handle is.","all operations, all counter values; 2 s","a leak of one count shows only at the last drop"),
("C09","`LastStrong` (the drop that reaches zero completes every waiting receive, no other drop does), `RecvSections shutdown` (a receive reports a shutdown only with evidence, and waits only after having seen, in the same section, that a strong address exists).","every interleaving at lock/atomic granularity; 80 s","race between the last drop and starting to wait"),
("C10","`LastMailbox` (the drop that reaches zero empties queue and both lists under the lock, closes each waiting sender, notifies listeners; no other drop does), `NoneAfterLast` (queueing and waiting only after connectivity was seen in the same section), `Outcome` of the re-polled sends.","lists shaped to two waiting senders of each kind; 3 s","the race was a genuine bug (D5)"),
("C11","`Outcome`: each `Ready` of a send is justified by what happened to the message (accepted / reply channel closed / never accepted).","first and every later poll of every kind of send; 1 s","later polls start from every state of the future"),
("C12","`Loop run`: automaton started → (receive → dispatch → done)* → stopped → value; nothing received after Break.","any number of messages (fixpoint); 3 s","unbounded loops"),
("C13","`Loop dispatch`: handler called once with that message and actor and a context of that mailbox; result sent to that message's reply channel afterwards; Break exactly if asked.","every kind of message, both polled through and with `span()` first; 1 s","every kind of message and interruption point"),
("C14","`StopAll`, `Loop stop`, `Pairs prio` (shutdown before everything).","any number of mailboxes and receives; 18 s","number of mailboxes"),
("C15","`Broadcast`: per critical section, each live queue in the list receives exactly one push and stays; each waiting receive is told. `Register`: a new mailbox's queue enters the list under the lock, and receives use that queue.","lists as witness element among any number of others; 88 s","skipping depends on dead queues in the list"),
("C16","`Locks`: no re-lock, one nesting order (all entries combined), no lock held at return/Pending, no handler or message destructor under the channel lock.","all 131 entries; 31 s","deadlocks need a second thread or a destructor that uses the channel"),
("C17","`Identity`: the comparison operators are interpreted for two symbolic handles of the same and of different channels, all strengths; equality, order, hash must agree and be transitive.","all strengths and address orders; 1 s","pairs and triples of handles"),
("C18","the rules of C04, C05, C08, C11, C17, C19, C21, C22 on the message-channel entries, `SendKeeps` (a send through a channel keeps addresses alive as one through the address).","all three kinds of channels; 22 s","each operation of each kind"),
("C19","`Join`: listens before it looks; ready exactly if over or fired; `LastMailbox` notifies all.","every interleaving of stop and set-up; 1 s","race"),
("C20","`Loop select`: both polled before suspension, no received message dropped, future's value returned, nothing received after Break.","any number of messages; `join` too; 2 s","both ready in one poll"),
("C21","`Pairs req`: `priority(p)` (once, twice, on detached, erased, broadcast) and the default, then the queue's own comparison against another message.","all u32; 21 s","all priorities"),
("C22","`Query`: result = state found under the lock, nothing changed; `Tail`.","any state; 20 s","all states"),
("C23","`Fused`: `is_terminated` exactly when the receive has yielded.","every state; 30 s","every history of polls"),
("C24","type-level witnesses (`engine/witness`): programs that must be accepted by rustc, each with a twin differing by one misuse that must be rejected.","one or a few programs per misuse; 4 s","a test suite that compiles contains no rejected program"),
("C25","the expansion of the derive for a set of shapes (generics, bounds, lifetimes, const) must type-check, and `Derived` interprets its methods: do nothing, yield ().","nine shapes of generics; 3 s","all types"),
("C26","`Spawn`: the runtime's spawn is called once with the run of that actor on that mailbox, the handle does not cancel it when dropped (per runtime), no address is kept, counters unchanged.","tokio, async-std, smol; wasm-bindgen cannot be built offline; 5 s","runtimes"),
("C27","the rules of the other properties on the MIR of a build with `instrumentation` on.","a selection (quick) or nearly all (thorough); 170 s","the tests cover few combinations with the feature"),
("C28","`NoPanic`: no abstract path of an entry ends in a panic, except the first step of polling a finished future.","all entries but those starting from unreachable states of a future (`h_bcast_again`, `h_send_detached_again`); 30 s","assertions on states only races reach"),
("C29","`Outcome`, `Pairs`, `RefBalance`, `NoLoss`, `Wakers` and `Capacity` on entries that drive the sink of an address (strong, weak) or of a message channel through the `Sink` trait: first item, polled again, next item, close, drop.","two items; the interpreter goes through the MIR of `futures_util::sink::unfold`, so any other way to build the sink is judged alike; 30 s","states of the mailbox when an item is given to the sink"),
]
o=[head,"","## Properties","","Costs are those of the quick tier on eight idle cores; the thorough tier has more entries, deeper shapes and larger budgets.",""]
for i,a,b,c in P:
    o+=["**%s** — %s  *Bounds and cost:* %s.  *Why not tests:* %s." % (i,a,b,c),""]
o+=["""## Limits

* `C03` is decided for lists of two waiting senders; `C10` for two waiting senders of each kind.  Everything else treats
  containers as symbolic (a witness element among arbitrarily many others, with summaries for the rest).
* Atomics are sequentially consistent in the models.  A change that only weakens a memory ordering is not detected.
* Interleavings are considered at the granularity of critical sections and atomic operations: on every lock and every
  atomic read, whatever another thread may have done is assumed (rely: the other operations keep the invariants the rules
  themselves establish, such as who may shrink a list).
* Which properties static analysis cannot decide: termination of handlers, fairness between actors that share an address,
  performance, what a runtime does with a task.  None of them is claimed; no listed property is without a check.
* `C24` and `C25` are decided by finitely many programs; each stands for a class of misuse, not for all programs.

## Known defects that no property claims (not repaired)

These are real, but repairing them changes behaviour or is not small; the statements are worded so that they do not claim them.
* D3: `len` and the capacity of broadcasts stay too high when the mailbox with the longest queue of broadcasts is dropped, until the next pop.
* D8: `stop_all` does nothing when no strong address is left.  D9: `bounded(0)` makes every first send wait.
* D10: handles of cancelled receives stay in the list until the next message.
* D11: the message handled together with a future that is ready in `select` may ask to stop; that is ignored.
* D12: a temporary `Arc` from upgrading a queue may be the last one, so that messages are dropped with the channel locked.
* A broadcast with no live mailbox queue left (only a receive keeps the channel alive) succeeds.

## Repaired defects

See `known-findings.json`: D1 (C01), D2 (C03), D4 (C16), D5 (C10), D6 (C05), D7 (C17); each was shown on the real code first.

## False alarms met, and what was done

* unknown iterator adapters over arrays, `nth`, narrowing casts, integer methods: modelled instead of being unknown;
* a comparison with `usize::MAX` made the zone's infinity finite (endless loops): infinity enlarged;
* `C06` on a rewritten search for live senders: a waiting list proved dead counts as having nobody waiting;
* `C19`/`C22` after rewriting `is_connected` with an iterator: numbers that a rule remembers now survive loop heads;
* `C27`: tracing's macros assert the number of their fields: that iterator is modelled;
* `C04` claimed broadcasts too: a waiting broadcast after D3 is not claimed.
The checks were run on seven rewritten copies of the library (R1–R7: helpers extracted, loops rewritten, states renamed and
reordered, data regrouped, closures for matches) and have to be quiet on all of them.

## Planted bugs

`seeded/` holds the ones that the existing tests do not notice.  All are caught by the check of their property:
"""]
o+=["| bug | property | needs |","|---|---|---|"]
for s in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%s))
    o.append("| %s | %s | %s |" % (s,m['property'],m['needs']))
o+=["","""Besides these, 150 mutants (`/tmp`, not kept) were run against the check of each property they might break.  All were caught except
those that turned out to keep the property, and one kind: a limit that only applies from the 65th element of a list on
(a change of behaviour at a large constant is found where sequences have summaries, not where a rule shapes them)."""]
open('/verif/DESIGN.md','w').write("\n".join(o)+"\n")
