"""Per-property scope notes and the closing section of DESIGN.md."""
NOTES = {
    "L01": "Locks are the library's own (`OptionalRLock`, `threading` locks, semaphores used as locks are listed in the rule). Re-entrancy is decided from the constructor of each lock and the acquisitions reachable while it is held.",
    "L02": "The order is a graph over lock owners (class and field), built from every nested acquisition on every path including registered callbacks. Two instances of one class are one node; the follower updates of the time keeper are resolved to the "
           "followers' classes. User callbacks are outside.",
    "L03": "`QueueClientManager.close_clients` puts end markers on bounded queues under the client manager's lock; the consumers of these queues never take that lock, so this one site is listed in the rule. The locks of the daemon manager and the state machine serialise whole operations by design and are outside. Coroutines blocking their own event loop are not lock waits and not claimed.",
    "L04": "Which attributes are guarded is a reviewed table in the rule plus every attribute some function changes under its object's lock; where elements are added and removed by other threads, iterating or copying also has to hold the lock. Single reads of a reference or an integer are exempt (they are atomic in CPython).",
    "L05": "`ChannelGroup.write` ignores the results of setting channels; only the critical section is claimed, not that every value is valid.",
    "E01": "Covers both registry implementations. The counted id is the only source of ids.",
    "E02": "Errors considered are those the library raises itself on its inputs (assertions, refused values), not memory exhaustion. Duplicate channels inside one list of initial channels end construction of the environment and are not claimed.",
    "W03": "Tables and bounds are evaluated as constants (sizes against the format characters, bounds against the size) - constant folding of literal tables, no code of the repository runs.",
    "W04": "`Frame.pad` on a finalized frame changes its size and is only used by the probe; finalized frames are W08.",
    "W06": "`frame_handle(None)` without queues is not reachable from the library.",
    "W07": "Chunk boundaries are symbolic: the rule is about the cut positions as linear terms of the bytes consumed, not about sampled chunkings.",
    "M01": "For well-formed fragments (a fragment index below the announced total); a peer sending an index beyond the total makes that message unreadable, not others.",
    "M02": "`MessageCache.clean` forgets type keys from memory; claims are about stored fragments.",
    "D01": "The table of legal transitions is the life cycle documented by `DaemonState` and the operations; the tests of the current state and the write must be one critical section.",
    "D02": "A stop requested while a thread is still starting reports failure (documented behaviour, `stop during STARTING returns False`); the claim is about stops which report success.",
    "D04": "Dependencies are assumed acyclic: a cycle recurses without end and is not claimed.",
    "X01": "A handler's exception is answered as a failure; what a handler itself does is not decided.",
    "X04": "A negative Content-Length blocks the reading of that one request's thread and is not claimed; responses are those of handlers registered with the mapper.",
    "S01": "A user's error handler that raises is outside; the library's own handler (the UDP client manager's) is inside.",
    "S02": "The table of queues of clients of the websocket server that have ended on their own is only pruned on the next registration.",
    "S03": "A file client stopped early or limited by max_frames puts no marker (its reader asked for it); a socket client whose peer closed puts the marker when stopped.",
    "A01": "The update of the data given to run is separate from the transition's critical section.",
    "T01": "The keeper's arithmetic is compared as linear terms; floating-point rounding is not claimed.",
    "G01": "Constructors of the daemons are not inlined: that a given service can bind its address is not decided here.",
}
TAIL = """
## False alarms met and corrected

* A named tuple's default was read as the value of every instance (G01 could not see a disabled service): defaults are now used only where the instance is constructed without that field.
* A loop over a comprehension's representative element was taken for an early exit (S01, L05): comprehensions have their own event.
* Equality tests written the other way round, membership written with `get() is None`, early returns, guard helpers, and `while` loops over an index were each once reported; each is now a KEEP variant every rule has to stay quiet on.
* A list made by several `return` paths of a helper was compared by object: list contents are compared by elements.
* A state or lock read through a local alias was a different value: aliases resolve to their origin.
* Every refused shape was turned into an undecided obligation rather than an alarm where the engine cannot tell. A required rule that matches nothing is exit 2; the required kinds are only those standing on public functions.

## What static analysis does not reach here

Rates actually met at run time, fairness between threads, the operating system's path MTU, loss on UDP, and behaviour of the websockets library are runtime quantities. Statements are phrased so as not to promise them, and where a
property is only about them it is listed as not applicable.

## Running

`python3 check.py ID` (quick) or `--tier thorough` (loops unfolded once more, deeper inlining). `python3 tools/mutants.py [ID]` runs the variants, `python3 tools/seedit.py FILE` confirms a planted bug, `python3 tools/design.py`
rewrites this file. `VERIF_REPO` points the analysis at another tree (variants do this); checks registered in the manifest use /repo.
"""
