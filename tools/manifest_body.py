COMMON=" Trusts the type checker, the SSA construction and the models of library calls (sa/models.go, sa/call.go); the transports and the recorder are taken at their interfaces here and checked on their own elsewhere."
TS="abstract interpretation / typestate over SSA: "
T["C01"]=(TS+"count and content of start responses on every path of the bus handler","Every path of the bus handler, for any decoded message and any outcome (error, panic) of each set-up step, publishes the start response exactly once with the right status."+COMMON)
T["C02"]=(TS+"release of registry entry, gauge, recorder and transport on every failing path","Every path on which a start request is answered failed has undone what it did."+COMMON)
T["C03"]=(TS+"no effect of a start request before the facts that make it acceptable","At each call with an effect, the facts of the path include that the id is not registered and the request is acceptable."+COMMON)
T["C04"]=(TS+"order and count of finalise, announce, free for a stop request","All paths of a stop request, including losing the race to another cause."+COMMON)
T["C05"]=(TS+"recordingStopped only after winning the session's one-shot guard","The one-shot is an atomic compare-and-swap, swap, sync.Once, map take or flag under a lock; interleavings are covered because winning it is exclusive."+COMMON)
T["C06"]=(TS+"whoever ends a session releases everything; every trigger ends it","All paths of the handler, the transports' callbacks and shutdown."+COMMON)
RC=" The recorder is analysed as an object: its constructors give the initial states, each exported method is run from every state admitted by the invariants found for its fields, and fields are forgotten whenever its lock is taken. Field values are assumed to change only under the lock (C23). Trusts the type checker, the SSA construction and the models of library calls."
T["C10"]=(TS+"shape of the path given to every file system call","Each path is shown to be the configured directory joined with a relative path that cannot climb, for any requested name."+RC)
T["C11"]=(TS+"exclusive-creation typestate of every created path","Every path opened for writing was created with O_EXCL by this recording before, or is itself opened with O_EXCL."+RC)
T["C12"]=(TS+"provenance of the mode argument of every creating call","Each mode is the parsed configured one and the parse is known to have succeeded."+RC)
T["C13"]=(TS+"paths opened while the null-device setting is known to be on","On every path on which the setting is on only the null device is opened and nothing else is created."+RC)
T["C14"]=(TS+"unopened-yet witness at every truncating open and writer replacement","Decides every order of track declarations and packets by inductive field invariants; four call paths are known findings."+RC)
T["C15"]=(TS+"closed flag known to be unset, under the lock, at every open and write","Covers all interleavings since the flag is tested and set under the same lock."+RC)
T["C16"]=(TS+"closing typestate of every writer field","All combinations of close errors; the lock state is checked at every exit."+RC)
T["C17"]=(TS+"bounds of every index and slice operation on packet data","All payload lengths; lengths are tracked symbolically, loops are widened."+RC)
T["C18"]=(TS+"existence of a keyframe gate with an inductive contract","The gate flag is searched for among the recorder's flags; functions that neither change followed fields nor write are skipped."+RC)
T["C19"]=(TS+"equality of the keyframe argument with the frame's own keyframe bit at every video write","All packetisations of a frame; the frame is a symbolic byte sequence."+RC)
T["C20"]=(TS+"difference of written and stored media times, unit of the conversion","Each written time is the stored one plus a non-negative amount, in milliseconds."+RC)
T["C38"]=(TS+"provenance of each step of a track's media time (RTP timestamp difference or sample duration), folded at sample values for the clock rate, and of the kept timestamp","All packet sequences; what the samplebuilder library reports as a sample's duration is trusted."+RC)
T["C22"]=(TS+"which writer field each packet handler uses and which declared track it was given; kind of the track known at every hand-over, declaration before hand-over or subscription","Recorder half: codec of the track entry whose writer the field holds. Transport half: every path of the track callbacks and of what they start, for both transports."+RC)
T["C36"]=(TS+"no panic or process exit on any path of the recorder's methods; error-free Write handed to the container library","All failures of all library calls; the sink given to the container library is analysed on its own."+RC)

AC=" The transports are analysed from their exported methods; callbacks handed to libraries and goroutines are analysed as activities of their own, from the states they are started in. Trusts the type checker, the SSA construction and the models of library calls."
T["C39"]=(TS+"keyframe requester given and SSRC registered before hand-over; each element a request goes over is named in a picture loss indication, and the loop comes to its end; one per timer tick","Both transports, every path of their requests, track callbacks, drop handlers and timers; what the connection does with the indication is trusted."+AC)
T["C40"]=(TS+"each report of a track's flow differs from the one before and is kept; a difference found by a look is reported before the next; what a look compares moves on; one message per report","Both transports and the server's callback, every path; statuses and packet numbers are followed symbolically, in locals or in cells behind a lock; that two looks between which exactly 65536 packets passed see no change is accepted."+AC)
T["C42"]=(TS+"linear inequalities over the positions of the list that were gone over, bit and distance of each sequence number by linear arithmetic, rounds of the retransmission timer between ticks","Every path of the packing and of the media tracks' activities, for every list and every history of requests; what the log reports as missing is C32 (not decided), the numbers are taken to be in order, and that packing into separate variables instead of a pair is not followed (it would be reported)."+AC)
T["C41"]=(TS+"terms of the request followed to the library's calls; each publication and media description that is gone over is dealt with, and the loops come to their ends","Every path of the start handler and of both transports' set-up, for every number of participants, publications and media descriptions; the signalling libraries are trusted, and tracks published after the set-up are out of scope."+AC)
T["C21"]=(TS+"take packets / ask for skipped ones / tell the recorder / hand over; and moves of the jitter buffer's position over unreleased packets","Every loss pattern: what was given up on is an arbitrary symbolic value at every question. Transports that don't use the repository's jitter buffer are out of scope."+AC)
T["C25"]=(TS+"stop channels of the goroutines started for a track and their signalling on every way out of the reader","All interleavings: each activity is analysed on its own and only ends on its stop channel, which only the end of reading signals."+AC)
T["C30"]=("abstract interpretation over SSA with linear congruences modulo the sequence space and linear inequalities, with an inductive search for the fields that are multiples of it","All inputs and histories, by induction over the calls of Unwrap; 63-bit overflow is excluded by assumption."+AC)
T["C31"]=("abstract interpretation over SSA with linear inequalities (difference bounds, variable elimination) over every critical section of the jitter buffer","All histories, by induction over the operations, from inductive invariants (positions are not negative, number of slots constant)."+AC)

WC=" Both the bus loop, shutdown, the start of the subscription and the HTTP server are explored; callbacks and goroutines are activities of their own. Trusts the type checker, the SSA construction and the models of library calls, in particular which of them may panic."
T["C07"]=(TS+"recover protection of every activity that handles outside input, process exits, and dereferences that a decoded message or signalling input decides","Every path of every activity; an activity without a recover of its own must be free of possible panics."+WC)
T["C08"]=("type-level comparison of message structs, tags and the decoder's table with the documented protocol; "+TS+"id, status and session of every published message, effects per inbound kind","All publishing sites and all message kinds."+WC)
T["C09"]=(TS+"units of every published timestamp and of every media time (monomials over conversion factors)","Every path; factors are exact symbolic products so that a missing or doubled conversion is decided."+WC)
T["C37"]=(TS+"satisfiability of the path facts at every refusal with the documented acceptable requests","At each failed answer before anything was tried, assuming any of the acceptable shapes contradicts the path."+COMMON)

PC=" The whole start of the program (every init function and main) and every goroutine it starts are explored; signals, failures of the client library and of the configuration sources are arbitrary. Trusts the type checker, the SSA construction and the models of library calls."
T["C26"]=(TS+"where every failure of the bus client ends (log, process status, or a channel somebody waits for), and read timeouts against the period of pings","Every failure at every operation of the client library, on every path of start, subscription and publishing."+PC)
T["C34"]=(TS+"channel and lock typestate of pending page requests: registration before the request is published, an answer or a bounded wait on every path, the answer delivered to the request it belongs to","All orders of bus responses and concurrent requests: each handler is analysed against arbitrary others."+WC)
T["C35"]=(TS+"order of finalising every session and leaving the process on every path that starts with SIGINT or SIGTERM","Termination at any point of the start or of the run; sessions are followed from the registry to the recorder's Close."+PC)
T["C27"]=(TS+"configuration objects between defaults, file loader, environment loader and the configuration in use; every leaf setting put in use is followed to a completely loaded object","All orders, failures and reloads; each leaf field of the configuration is an obligation of its own."+PC)

FC=" Values are traced backwards on demand through calls (call site as context), fields, closures, channels of conversion and library calls; what can run with a switch off is decided by partial evaluation of the branch conditions. Trusts the type checker, the SSA construction, and that a library's result comes from its arguments."
T["C28"]=("interprocedural value-provenance (demand-driven backward dataflow over SSA) from every documented component argument to the settings and constants it may come from; reachability with a setting fixed for switches","Every argument of a component a setting is documented for, in every calling context: the only setting it comes from is the documented one, read from the loaded configuration, and the choice of a component (sampler, IVF copy, adapter) follows its switch."+FC)
T["C29"]=("reachability with the enable switches fixed (partial evaluation over the call graph) and provenance of each listener's handler","Every place that listens: which handlers its multiplexer serves, where the media directory comes from, and that it is reached exactly when its section is enabled."+FC)
LC=" Functions are summarised bottom-up; memory and locks are named by the path from the object they belong to (fields, elements, references), translated at every call, callback and goroutine start. Two elements of one container count as the same. Trusts the type checker, the SSA construction, that libraries call back from other goroutines (except sort, slices, sync.Once and the like), and that library objects are safe to share except those known not to be."
T["C23"]=("lockset analysis: compositional summaries of every memory access with the locks held and the goroutine or callback it is made in, compared where the object was made","Every pair of accesses to the same memory by two goroutines or callbacks that may run at the same time, one of them writing: a common lock, or both atomic. Ordered by goroutine start, hand-over, channel and WaitGroup joins only."+LC)
T["C24"]=("lock-state dataflow (held on some/all ways, released) through calls, deferred calls and callbacks; lock-order graph; re-acquisition through any call chain","Every way out of every function, every lock taken with another held, by the type and field the locks belong to. Waiting on channels with a lock held is not covered."+LC)
NA["C32"]="The claim is arithmetic over a bitmap of unbounded history (which bit is set after any sequence of arrivals): a sound static argument would need a relational invariant between the bits of the window and the received numbers, which no dataflow or typestate domain in reach expresses; the structural part (locks, indices in range, what is requested again is what was reported missing) is covered by C23, C01 and C25."
NA["C33"]="Quantifies over network behaviour and time from end to end, through the sample assembly and the container library; no static argument in reach bounds it. Its parts that are local to the repository are C30, C31 (order and completeness in the buffer), C18, C20 and C38 (loss, continuity and the clock)."
