"""technique and level note of every claimed property"""
PATHS = "path-sensitive typestate analysis over the type-checked, fully instantiated AST/CFG (own Clang-based extractor, interprocedural inlining), "
N = "Static decision over every path of the instantiated functions in every witnessed configuration; loops are summarised after one iteration; asio/boost behaviour is assumed as listed in the evidence."
T = {
    "H01": (PATHS + "event-order obligations over starting, stopping and removing, exceptions followed from the context's run functions into their handlers, net effect on the thread counters per path", N),
    "H02": (PATHS + "effect balance of each count in linear arithmetic, forwarding and release obligations over every concrete class, lock sets at every access to a context's count", N),
    "A01": (PATHS + "value flow of the call indicator into every completion handler", N),
    "A02": (PATHS + "event-order automaton over the deferred-close handler", N),
    "B01": (PATHS + "execution-context inference over every deferral site, including the type the bound executor has when it reaches asio", N),
    "B02": (PATHS + "ownership automaton of the sending role over write start, completion, request and congestion pause", N),
    "B03": (PATHS + "value flow of the priority argument through every overload, plus insertion and removal positions of every queue operation", N),
    "D01": (PATHS + "event-count obligations per completed read, with branch facts on the receive bound at pause and resume", N),
    "I01": (PATHS + "lock-state, change-notify and hand-over obligations over every waited-for member; iterator-loop accounting of promises answered", N),
    "D02": (PATHS + "hold/queue/retry obligations with branch facts, and iterator-loop accounting of the element-wise hand-over", N),
    "C02": (PATHS + "branch-fact obligations at every insertion and refusal, lock automaton over the discarding bound test", N),
    "C01": (PATHS + "ghost-state accounting and lock-state analysis over every queue operation and its unlocked callers", N),
    "F01": (PATHS + "lock automaton over the start gate plus who-writes and override-chain queries", N),
    "G01": (PATHS + "event-order automaton over timer start, expiry and stop, plus non-zero-divisor facts", N),
    "O01": (PATHS + "field-by-field comparison of each operator with the declared fields, who-writes query over every concrete socket class, event-order obligations at each counting site", N),
    "Q01": ("compiler-evaluated constants of every timer call each concrete class can run, compared over all inheritance chains and configurations", "Static decision over the fully instantiated program; ids computed at run time are reported, not assumed."),
    "P01": (PATHS + "slot-by-slot comparison of every hook's and registration's paths", N),
    "A03": (PATHS + "lock automaton over every table access plus branch-fact obligations (unreferenced, obsolete, erased) at every hand-over, reuse and free", N),
    "U01": (PATHS + "branch-fact obligations (capacity, key freshness) at every insertion under the lock, who-writes query over the id, and caller obligations on refusal", N),
    "K01": (PATHS + "count of accepts per completion path with the listening state and lock facts, and setup/answer obligations of the listen functions", N),
    "J01": (PATHS + "lock automaton joined with the synchronous call graph of all concrete classes: lock-order cycles, re-acquisition, locks held across notifications", N),
    "F02": (PATHS + "retry/give-up obligations on every path of the connect, completion, timer and after-close functions of every concrete client class, followed through the callbacks each timer is armed with", N),
    "F03": (PATHS + "set of link states possible at each point (from the comparisons and assignments on the path), monitor-armed-or-closed obligations, and duration constants compared over all arming sites", N),
    "L01": (PATHS + "typestate of the link followed from completion handler to completion handler (connect, TLS, WebSocket, proxy), with the error fact of each path and the handshakes the socket's own stream type demands", N),
    "N01": (PATHS + "linear normal form of every time comparison on every path of the check, its timer, the read and send completions, the start functions and the default hooks", N),
    "F04": (PATHS + "write sets of the final reset() and on_close() of each concrete socket class, and of each unpacker's reset() against the fields its interface functions change", N),
    "M01": (PATHS + "linear inequalities (Fourier-Motzkin) over the buffer offsets and lengths with inductive field invariants; message layout and reply grammar matched per protocol step", N),
}
