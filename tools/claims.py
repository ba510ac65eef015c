base = " Trusted: gv itself, go/ssa, the SMT solvers and the intrinsics and external contracts listed in the evidence."
claims = {
 "C01": "Proved for all messages: every Frame method meets its layout contract, function by function, over the contracts of the write buffer and the frame constructors." + base,
 "C02": "Proved for all messages within the wire limits: every parser accepts the encoded layout and returns an equal message (behaviour roundtrip, with the message as ghost parameter)." + base,
 "C03": "Proved for all frames: an accepted body equals the layout of the resulting message, so that serialising it gives the frame; otherwise error and no message." + base,
 "C04": "Proved for all inputs: every index, slice, conversion, nil dereference and make in the parsers and frame readers is safe, every loop has a decreasing measure and every allocation is bounded by the input." + base,
 "C05": "Proved for all streams: the frame readers accept exactly when a complete frame is there, return exactly its bytes and leave the rest of the stream. io.CopyN is modelled by an intrinsic." + base,
 "C06": "Proved for all streams: each receive function returns, for every well-formed message of the sender, a message of its type with equal fields (one behaviour per type), an opaque message otherwise, and consumes exactly that frame; sending appends exactly the wire layout. net.Conn.Write is modelled by an intrinsic." + base,
 "C07": "Proved for all buffers and counts." + base,
 "C08": "Proved for all buffers and arguments, with ownership of the capacity of the buffer." + base,
 "C09": "Proved for all parameter lists and names; messages are immutable in the verified heap, a write would fail a frame obligation." + base,
 "C24": "Proved for all strings and, entry by entry, for all keys of the result, over trusted contracts of net/url and os/user (results are functions of their arguments)." + base,
 "C25": "Proved for all result sets and failures, row by row (behaviours with a row and a key as ghost parameters); object IDs are unique in the catalogue. database/sql is modelled by intrinsics (row iteration, errors, open result sets and databases), the columns are taken from the select list of the constant query." + base,
}
reasons = {
 "C28": "liveness over infinite schedules: contracts of partial and total correctness of functions do not express fairness of the scheduler and progress of other goroutines; termination is proved only for sequential code (C04)",
}
conc = " Concurrency: each function is verified for one goroutine against what the others may do (lock invariants and two-state relations of locks, monotone ghost state, tokens for channels); Go's memory model, sync, atomic and channel semantics are built into gv." + base
claims.update({
 "C14": "Proved for all schedules: the critical section of Get returns the value under the lock, the two-state relation of the lock says that it only ever becomes the last received update, and the ready event is fired only after the first one." + conc,
 "C15": "Proved for all schedules, per update and per channel (a ghost key): the critical section of an update appends it to exactly the subscribed channels whose checks accept it; Subscribe and Unsubscribe likewise. Checks are functions of their arguments." + conc,
 "C16": "Proved for all schedules: closing leaves no subscription (lock invariant for every channel, established by the call that closes), Get and Subscribe fail afterwards, the monitor token allows one consumer and the consumer's wait ends with the closed event." + conc,
 "C17": "Proved for all schedules, over the semantics of sync.Once, atomics and channels built into gv." + conc,
})
claims.update({
 "C10": "Proved for all message sequences and schedules: the pumps and processors of a session are each verified to hand on every message they receive, unchanged and in order, to the pump of the other party (what a channel is sent is a prefix of what its source received, and at the end, unless writing failed, all of it), a pump writes what its channel delivers, message by message, and no pump sends where it could block on the other direction." + conc,
 "C11": "Proved for all clients: the only dial is the one of Start, made after the negotiation accepted a startup message all of whose database parameters equal the configured one, with the address of the configuration, and the first message written to it is that startup message." + conc,
 "C12": "Proved for all packet sequences: the negotiation writes one N per SSL request and nothing else, its loop carries no growing state (no recursion, no allocation kept across rounds) and it goes on until a startup message or an error." + conc,
 "C13": "Proved for all schedules: channels are only sent to by their owner and closed once by it, after its last send; the connections are registered and closed under their lock such that whoever comes last closes them; every way out of Start closes the session and returns an error." + conc,
})
claims.update({
 "C18": "Proved for all histories and schedules: the results of Start, Serve and ServeConn follow the events of the server, a listener or connection is a linear token that is either kept by the server under its lock or closed." + conc,
 "C19": "Proved for all schedules: once the closing goroutine has released the lock the listener is closed and every registered session (a ghost key) is being closed, additions under the lock are refused from then on, goroutines are registered with the wait group under that lock only, and Close waits after it." + conc,
 "C20": "Proved for all sequences of updates: before every receive from the subscribed channel one listen has been made per update received, the last one with its address, a successful one has been put in place under the lock (or the server is being closed), in order; the check that is subscribed is compared with its specification for every pair of configurations; a listener is closed only by being replaced." + conc,
 "C21": "Proved for all sequences of accept results: an accepted connection is a linear token that only a goroutine of its own running ServeConn takes, exactly once; the loop ends only with an error that is not temporary or with the server closed." + conc,
})
claims.update({
 "C27": "Proved for all schedules: every read and write of a guarded field is an obligation to hold its lock (write-once fields may be read by the goroutines started after they were set), every lock is released at every return and never taken twice, no lock is held while waiting, locks are taken in one order, and what several goroutines share otherwise is immutable in the verified heap or carried by a token that only one of them holds. Covers pkg/server; the watcher of pkg/cli is verified for C26." + conc,
})
claims.update({
 "C22": "Proved for every outcome of parsing, loading, watching and serving: Run's result, the number of starts of the server, the channel it is given and what has been printed last on the standard error stream are stated over ghost records of those outcomes. kingpin's Parse is modelled (it may ask to terminate, set flags, fail)." + base,
 "C23": "Proved for every file content: readServerConfig gives the decoded values or an error; the callback of the watcher (a contract on the closure stored in OnWrite) reads once and sends exactly what it read if it loads, nothing otherwise. toml is modelled by its result." + base,
})
claims.update({
 "C26": "Proved for all sequences of events and errors and every combination of callbacks: Watch with both of its goroutines is executed as written; every event received is due for exactly the callback of the statement, which is called before the next event and only then; nothing is received after an end of the channels, an error or a stop; the fsnotify watcher is closed on every way and not before the event loop has ended, unless the set-up failed, and that error is what Watch returns. Variables shared by the goroutines are lent to the one registered with a local wait group and read again after the wait." + conc.replace("; Go's", "; fsnotify is modelled by intrinsics (its channels are closed by Close, any event may come at any time); Go's"),
})
