"""which components decide which property"""
PROPS = {
    "C01": ["channel"],
    "C02": ["channel"],
    "C03": ["channel"],
    "C04": ["comb"],
    "C05": ["comb", "channel"],
    "C06": ["comb"],
    "C07": ["comb"],
    "C08": ["comb"],
    "C09": ["coro"],
    "C10": ["coro"],
    "C11": ["coro"],
    "C12": ["coro"],
    "C13": ["coro", "thread"],
    "C14": ["coro"],
    "C15": ["coro"],
    "C16": ["coro"],
    "C17": ["coro"],
    "C18": ["coro"],
    "C19": ["op"],
    "C20": ["op", "coro", "comb", "channel"],
    "C21": ["thread"],
    "C22": ["coro", "comb", "channel", "op", "thread"],
    "C23": ["coro"],
    "C24": ["xfer"],
    "C25": ["stream"],
    "C26": ["timer"],
    "C27": ["file"],
}
_COMMON = ("Exhaustive for the specification within the constants of the .cfg files; for the code, every generated scenario's "
           "recorded execution must be a behaviour of the specification, under AddressSanitizer. Trusts TLC, the driver's logging, "
           "asio's io_context and gcc's coroutines.")
NOTES = {
    "C01": "Histories of up to 5 operations on channels with limits 0..2 exhaustively in the model; random histories of up to ~30 operations on up to 3 channels in the code. " + _COMMON,
    "C02": "As C01; blocking is checked at every call and lost wake-ups at every quiescent point. " + _COMMON,
    "C03": "As C01 with close, cancellation and interruption at every point of the histories. " + _COMMON,
    "C04": "All trees of one or two levels with two or three leaves and scripted reactions exhaustively in the model; random trees of up to three levels, all forms of passing awaitables, in the code. " + _COMMON,
    "C05": "As C04, plus the channel component: operations that lose a race move no value. " + _COMMON,
    "C06": "As C04, trees dominated by gather. " + _COMMON,
    "C07": "As C04, trees dominated by join. " + _COMMON,
    "C08": "As C04 with more frequent outer cancellations and interruptions, also after completion. " + _COMMON,
    "C09": "Model: one promise and its awaiter, 80 programs, every history of 5 commands (create, complete, fail, cancel, detach, interrupt, move, get, destroy) and every execution and destruction order; code: those histories plus random programs of up to 6 coroutines. " + _COMMON,
    "C10": "As C09, plus programs with a coroutine in between, so that destruction and cancellation pass through it. " + _COMMON,
    "C11": "As C10; every cancellation type, filters, resetting and disabling of throwing in random programs. " + _COMMON,
    "C12": "Model: a task awaited or spawned by a promise or task, 160 programs, every history of 5 commands; code: those plus random programs of up to 6 coroutines. " + _COMMON,
    "C13": "As C12, handlers on the same or another execution context; two contexts polled alternately, and the thread component for tasks spawned onto a thread under controlled schedules. " + _COMMON,
    "C14": "Model: eager and lazy generators with up to 3 values, 36 programs, every history of 6 commands; code: those plus random programs with up to 6 coroutines. " + _COMMON,
    "C15": "As C14 with pushed values. " + _COMMON,
    "C16": "As C14 with more destruction and cancellation. " + _COMMON,
    "C17": "Model: with over every kind of body and teardown (coroutine, operation, synchronous, failing), 1296 programs, every history of 4 commands; code: those plus random programs of up to 6 coroutines with nested withs. " + _COMMON,
    "C18": "Model: a group of two members used by its coroutine and the main program, or owned by a with, 120 programs, every history of 4 commands; code: those plus random programs with groups of up to 5 members. " + _COMMON,
    "C19": "Model: a coroutine awaiting one or two operations, compositions included, every way of completing them, every history of 4 commands (thorough: 6); code: those plus random programs of up to 4 awaits over all 11 signatures and compositions nested up to 3 deep. Bodies of compositions that throw are excluded. " + _COMMON,
    "C20": "The op component's forms (direct, as_result, as_tuple) for every signature and outcome, and those of the other components; as_tuple of void promises and tasks yields a bare exception_ptr by design. " + _COMMON,
    "C21": "Model: a thread and its owner, every interleaving of their steps, bodies of up to 2 steps, 3 commands (thorough: bodies of up to 3 steps, 4 commands); code: those histories plus random ones of up to ~20 commands, each under a random schedule of a scheduler that preempts at every basic block. One owner, no nested threads. " + _COMMON,
    "C22": "Every frame, local, handler and allocation is accounted for in every scenario of the five components, with the context destroyed before or after the objects. " + _COMMON,
    "C23": "Model: three coroutines of which some have the other executor, awaiting, spawning and cancelling each other, 144 programs, every history of 4 commands (thorough: 5) and every order of the two contexts; code: those plus random programs of up to 6 coroutines. One thread. " + _COMMON,
}
NOTES.update({
    "C24": "Model: transfers of up to 3 bytes by scripted streams with up to 2 partial transfers of every kind, and sequences of buffers with every way of looking at them; code: those plus random transfers of up to about 40 bytes in up to 6 buffers. " + _COMMON,
    "C25": "Model: both ends of a pipe or of a pair of sockets, every history of 4 commands (thorough: 5) with every answer the system may give; code: those plus random histories of up to ~25 commands with transfers of up to 400000 bytes. Linux, epoll. " + _COMMON,
    "C26": "Model: two timers of either clock and sleeps, or two sets of signals, every history of 5 commands (thorough: 6); code: those plus random histories of up to ~26 commands on up to 4 timers, 3 sets and 3 signals, in virtual time. " + _COMMON,
    "C27": "Model: two objects on three files, one of them a fifo, every history of 4 commands (thorough: 5); code: those plus random histories of up to 26 commands on up to 6 objects. The posix implementation (without io_uring). " + _COMMON,
})
NOT_YET = {}
