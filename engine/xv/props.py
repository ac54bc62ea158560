"""Which rules decide which property."""
ASSUME = [
    "library code (std collections, Arc/Weak, mutexes, atomics, catty, event-listener) behaves as modelled in engine/xv/natives.py",
    "user code (handlers, destructors of user values, wakers) terminates and is treated as arbitrary at the points where it is called",
    "arithmetic overflow, poisoned locks and panics of user code are outside the scope",
]
TECHNIQUE = "static analysis: abstract interpretation of rustc MIR with typestate/ownership automata"
NOTE = ("All abstract paths of the listed entry points of the current source are explored to a fixpoint; a reported violation is a path. "
        "Trusted: the models of library functions (std, catty, event-listener, spin), rustc's MIR. Overflow, poisoned locks and panics of user code are out of scope.")
WITNESS = "type-level witnesses: programs that must compile, with compile-fail twins"
WNOTE = "Each misuse is represented by one or a few programs; rustc decides. Trusted: rustc's type and borrow checker."
WEXP = ("Static analysis by type-level witnesses: rustc checks programs against the library's current source; each must be accepted, and its twin, "
        "which differs in one misuse, rejected.  Nothing is executed.")
CH = ("h_ch_", "h_chsend", "h_prio_ch")
SINK = ("h_sink", "h_prio_sink")
INSTR = ("h_dispatch", "h_send_first", "h_bcast_first", "h_chsend_first", "h_recv_poll_drop", "h_recv_first", "h_recv_drop", "h_mailbox_drop",
         "h_addr_drop", "h_stop_all")
COUNTS = ("h_addr", "h_waddr", "h_eaddr", "h_mailbox", "h_new", "h_send", "h_bcast", "h_wsend", "h_esend", "h_detached", "h_ch", "h_recv", "h_message")
PROPS = {
    "C01": dict(rules=[("r_order", "Pairs", {"what": "fifo"})]),
    "C02": dict(rules=[("r_order", "Pairs", {"what": "prio"}), ("r_order", "Choice", {})]),
    "C03": dict(rules=[("r_order", "AdmitOrder", {}), ("r_chan", "Admission", {})]),
    "C04": dict(rules=[("r_chan", "Capacity", {}), ("r_bcast", "Tail", {})]),
    "C05": dict(rules=[("r_chan", "NoLoss", {})]),
    "C06": dict(rules=[("r_chan", "Admission", {}), ("r_bcast", "Tail", {})]),
    "C07": dict(rules=[("r_chan", "Wakers", {}), ("r_chan", "WakeOnChange", {}), ("r_chan", "RecvSections", {"what": "wait"}),
                       ("r_chan", "QueueWhileWaiting", {}), ("r_query", "Join", {})]),
    "C08": dict(rules=[("r_refs", "RefBalance", {}), ("r_refs", "Upgrade", {}), ("r_query", "Handle", {})]),
    "C09": dict(rules=[("r_refs", "LastStrong", {}), ("r_chan", "RecvSections", {"what": "shutdown"})]),
    "C10": dict(rules=[("r_out", "LastMailbox", {}), ("r_out", "NoneAfterLast", {}),
                       ("r_out", "Outcome", {"entries": ("h_send_again", "h_bcast_again", "h_send_detached_again")})]),
    "C11": dict(rules=[("r_out", "Outcome", {})]),
    "C12": dict(rules=[("r_loop", "Loop", {"what": "run"})]),
    "C13": dict(rules=[("r_loop", "Loop", {"what": "dispatch"})]),
    "C14": dict(rules=[("r_bcast", "StopAll", {}), ("r_loop", "Loop", {"what": "stop"}),
                       ("r_order", "Pairs", {"what": "prio", "entries": ("h_bcast_stop",)})]),
    "C15": dict(rules=[("r_bcast", "Broadcast", {}), ("r_bcast", "Register", {})]),
    "C16": dict(rules=[("r_chan", "Locks", {})]),
    "C17": dict(rules=[("r_query", "Identity", {})]),
    "C18": dict(rules=[("r_query", "Query", {"what": "ch"}), ("r_query", "Join", {"what": "ch"}), ("r_query", "Identity", {"what": "ch"}),
                       ("r_query", "Handle", {"what": "ch"}), ("r_refs", "RefBalance", {"entries": CH}), ("r_out", "Outcome", {"entries": CH}),
                       ("r_chan", "Capacity", {"entries": CH}), ("r_chan", "NoLoss", {"entries": CH}), ("r_order", "Pairs", {"what": "req", "entries": CH}), ("r_query", "SendKeeps", {})]),
    "C19": dict(rules=[("r_query", "Join", {}), ("r_out", "LastMailbox", {})]),
    "C20": dict(rules=[("r_loop", "Loop", {"what": "select"})]),
    "C21": dict(rules=[("r_order", "Pairs", {"what": "req"})]),
    "C22": dict(rules=[("r_query", "Query", {}), ("r_bcast", "Tail", {})]),
    "C23": dict(rules=[("r_query", "Fused", {})]),
    "C24": dict(rules=[], static=[("r_witness", "witnesses")], technique=WITNESS, note=WNOTE, explanation=WEXP),
    "C25": dict(rules=[("r_spawn", "Derived", {})], variants=("derive",), static=[("r_witness", "derived")], technique=TECHNIQUE + "; " + WITNESS),
    "C26": dict(rules=[("r_spawn", "Spawn", {})], variants=("spawn",)),
    "C27": dict(rules=[("r_loop", "Loop", {"what": "dispatch"}), ("r_loop", "Loop", {"what": "stop"}), ("r_loop", "Loop", {"what": "select", "tier": "thorough"}),
                       ("r_out", "Outcome", {}), ("r_chan", "NoLoss", {}), ("r_chan", "Capacity", {}), ("r_chan", "Wakers", {}),
                       ("r_chan", "Admission", {}), ("r_chan", "Locks", {"tier": "quick", "entries": INSTR}), ("r_chan", "Locks", {"tier": "thorough"}), ("r_refs", "RefBalance", {"tier": "quick", "entries": COUNTS}), ("r_refs", "RefBalance", {"tier": "thorough"}), ("r_query", "Fused", {}),
                       ("r_query", "Query", {}), ("r_query", "Join", {}), ("r_query", "Identity", {}), ("r_refs", "Upgrade", {}),
                       ("r_refs", "LastStrong", {}), ("r_out", "LastMailbox", {}), ("r_out", "NoneAfterLast", {}),
                       ("r_bcast", "StopAll", {}), ("r_bcast", "Register", {}), ("r_order", "Pairs", {"what": "prio", "tier": "thorough"}),
                       ("r_chan", "QueueWhileWaiting", {}), ("r_chan", "WakeOnChange", {"tier": "thorough"}),
                       ("r_loop", "Loop", {"what": "run", "tier": "thorough"}), ("r_order", "Pairs", {"what": "fifo", "tier": "thorough"}),
                       ("r_order", "Choice", {"tier": "thorough"}), ("r_order", "AdmitOrder", {"tier": "thorough"}),
                       ("r_bcast", "Tail", {"tier": "thorough"}), ("r_bcast", "Broadcast", {"tier": "thorough"}),
                       ("r_chan", "RecvSections", {"what": "wait", "tier": "thorough"}),
                       ("r_chan", "RecvSections", {"what": "shutdown", "tier": "thorough"})], variants=("instr",)),
    "C28": dict(rules=[("r_panic", "NoPanic", {})]),
    "C29": dict(rules=[("r_out", "Outcome", {"entries": SINK}), ("r_order", "Pairs", {"what": "req", "entries": SINK}), ("r_refs", "RefBalance", {"entries": SINK}),
                       ("r_chan", "NoLoss", {"entries": SINK}), ("r_chan", "Wakers", {"entries": SINK}), ("r_chan", "Capacity", {"entries": SINK})]),
}
LATER = "no check for it yet"
NA = {"C%02d" % i: LATER for i in range(1, 30)}
