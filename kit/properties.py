def P(id, title, statement, over, text, why, files, mech, **kw):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if kw.get("state"): d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in kw["state"]]
    if kw.get("observe"): d["anchors"]["observe_at"] = kw["observe"]
    return d
SEC = "src/security/"
CR = "src/runtime/crypto/"
PO = "src/pool.rs"
EC = "src/execution_context.rs"
WK = "src/worker.rs"
RT = "src/runtime/mod.rs"
PROPS = [
P("S01", "Binary buffer memory is capped per isolate and accounted exactly",
  "A request for buffer memory succeeds exactly when the bytes already live plus the request stay within the isolate's configured limit; otherwise it gets nothing, the memory-limit flag is raised and the account is unchanged. Every granted block has the requested length (zero-filled when the caller asks for it) and returning it gives back exactly its bytes. Under concurrent requests the granted total never exceeds the limit and no request leaves a residue in the account.",
  ["inputs", "schedules", "histories"], "every limit, request size, prior total, and every interleaving of concurrent allocate/free calls",
  "The repository has no unit test of the allocator; integration tests (not runnable here) try one size each and no interleaving.",
  [SEC + "array_buffer_allocator.rs"], [("optimistic add, check, roll back", SEC + "array_buffer_allocator.rs allocate / allocate_uninitialized"), ("subtract on free", SEC + "array_buffer_allocator.rs free")],
  state=[("count", "live bytes", "CustomAllocator.count")], observe=["pointer returned to V8", "current_usage()", "memory_limit_hit flag"]),
P("S02", "Heap exhaustion stops the request, never the process",
  "Whenever the script heap reaches its limit, the isolate concerned (and no other) is told to stop, the memory-limit reason is recorded before that, and the engine is given strictly more room (at least 2 MiB, a bounded amount) so that it can unwind instead of aborting the process. This holds for every invocation, not only the first. Installing the protection trips nothing.",
  ["inputs", "histories"], "every current limit and every number of earlier invocations",
  "Existing tests only build the state and run a healthy script; the callback itself is never driven past its first calls.",
  [SEC + "heap_limit.rs"], [("near-heap-limit callback", SEC + "heap_limit.rs near_heap_limit_callback"), ("installation", SEC + "heap_limit.rs install_heap_limit_callback")]),
P("S03", "A wall-clock limit ends exactly the runs that exceed it",
  "With a limit of zero no watchdog exists; with a positive limit the isolate is terminated exactly once, after exactly the configured time, if and only if the guard is still alive then, and the timeout reason is visible before the termination; the task waiting for the run is then woken (an idle run executes no JavaScript that could be terminated). Dropping the guard earlier cancels the watchdog without terminating anything, does not wait for the limit to run out, and leaves no watchdog behind.",
  ["inputs", "schedules"], "every limit; expiry before, or cancellation before, the limit",
  "The two unit tests look at a hand-built disabled guard and at an atomic flag; no test runs the watchdog.",
  [SEC + "timeout_guard.rs"], [("watchdog thread with cancellable wait", SEC + "timeout_guard.rs TimeoutGuard::new"), ("cancel and join", SEC + "timeout_guard.rs Drop")]),
P("S04", "A CPU-time limit is armed exactly, renewed exactly and released once",
  "For every positive limit an enforcer arms one one-shot timer on the calling thread's CPU clock for exactly that time; a limit of zero arms nothing, and a failure to create or arm the timer yields no enforcer and leaves no timer behind. Renewing the limit clears the verdict and re-arms the same timer with exactly the new limit. Dropping the enforcer deletes its timer exactly once, and a late signal then terminates nothing.",
  ["inputs", "fault_sequences"], "every limit; failure of either system call; any order of signal, renewal and drop",
  "No unit test touches the enforcer; wrong seconds/nanoseconds splits, leaks on failure and late signals need specific limits or injected faults.",
  [SEC + "cpu_enforcer.rs"], [("timer creation and arming", SEC + "cpu_enforcer.rs CpuEnforcer::new"), ("renewal", SEC + "cpu_enforcer.rs CpuEnforcer::reset"), ("release", SEC + "cpu_enforcer.rs Drop")]),
P("S05", "A CPU-limit signal terminates the offender once and nobody else",
  "Every enforcer is identified uniquely. A CPU-limit signal terminates exactly the isolate whose enforcer it names, at most once until that enforcer is renewed, marking it as terminated first; signals naming no live enforcer do nothing. One shared listener serves all enforcers.",
  ["histories", "schedules"], "every sequence of signals (own, other's, unknown, repeated) and enforcer creations/drops, concurrent id allocation",
  "No unit test delivers a signal; cross-talk between two enforcers needs two isolates and a particular order.",
  [SEC + "cpu_enforcer.rs"], [("unique ids in the signal value", SEC + "cpu_enforcer.rs CpuEnforcer::new"), ("registry lookup", SEC + "cpu_enforcer.rs signal_handler_thread")]),
P("S06", "CPU time used is measured on the thread's own clock and never negative",
  "The measured CPU time is exactly what the operating system's per-thread CPU clock reports, or absent when the clock fails. The elapsed CPU time of a run is the end reading minus the start reading, zero when a reading is missing or runs backwards, and measuring never panics.",
  ["inputs", "fault_sequences"], "every clock reading and every clock failure",
  "No unit test reads the timer; a failing or backwards clock cannot be produced by ordinary use.",
  [SEC + "cpu_timer.rs"], [("clock_gettime conversion", SEC + "cpu_timer.rs get_thread_cpu_time"), ("saturating difference", SEC + "cpu_timer.rs CpuTimer::elapsed")]),
P("G01", "Deferred handles are destroyed exactly once, and only by processing",
  "Deferring the destruction of an engine handle destroys nothing; the handle is pending until the queue is processed. Processing destroys every handle whose deferral completed before it began, each exactly once, whatever other threads defer meanwhile; handles deferred during the processing are destroyed by it or stay pending, none is lost. The pending count is the number of deferred, not yet destroyed handles, and disposing of the queue destroys the rest once.",
  ["histories", "schedules"], "every number of pending handles and every interleaving of deferring threads with a processing",
  "The unit tests only look at the count of an empty queue; the engine is not available to them, so no handle is ever deferred or destroyed.",
  ["src/gc/deferred_destruction.rs"], [("locked queue", "src/gc/deferred_destruction.rs defer"), ("drain", "src/gc/deferred_destruction.rs process_all")],
  state=[("pending", "handles deferred and not yet destroyed", "DeferredDestructionQueue")], observe=["handles destroyed", "len()", "has_pending()"]),
P("G02", "External memory is charged in full to the isolate that owns it, and given back",
  "While an external-memory guard lives, exactly its current amount is charged to the isolate whose lock was held when it was made, counting what was reported to the engine plus what is pending in that isolate's accumulator, and no other isolate is ever charged. This holds for every sequence of creating, adjusting, setting and dropping, whichever lock (none, that isolate's, another's, nested ones) is held at each step and whatever other threads add meanwhile; dropping the guard leaves nothing charged. Taking an isolate's lock reports everything pending for it once, and releasing it restores the lock held before.",
  ["inputs", "histories", "schedules"], "every amount and adjustment, every lock state at each step, concurrent pending deltas",
  "The unit tests use a guard without an isolate; charging one isolate while another is locked, or while none is, needs two isolates and a particular order.",
  ["src/gc/external_memory.rs", "src/gc/js_lock.rs"], [("guard", "src/gc/external_memory.rs ExternalMemoryGuard"), ("current lock and pending deltas", "src/gc/js_lock.rs JsLock")],
  state=[("pending delta", "bytes charged but not yet reported to the engine", "Arc<AtomicI64> per isolate")], observe=["adjust_amount_of_external_allocated_memory per isolate", "pending accumulator"]),
P("G03", "External memory sizes count what the value owns, once",
  "The external size of a value is the memory it owns outside the script heap: nothing for an absent value, the content for a present one, cell plus content for a box, cell plus content for a reference-counted value that has one owner and nothing once it is shared, the backing capacity for buffers and strings plus the content of elements for vectors. A derived implementation is the sum over exactly the fields marked for it. A tracked value is charged with its size when created, with its new size after an update, and with nothing once it is gone.",
  ["inputs"], "every size, every struct shape the derive accepts",
  "Unit tests sample a few values; the derive macro has no expansion test for tuple, unit and generic structs with arbitrary sizes.",
  ["src/gc/traceable.rs", "src/gc/external_memory.rs", "gc-derive/src/lib.rs"], [("size implementations", "src/gc"), ("derive", "gc-derive/src/lib.rs")]),
P("L01", "The engine turn has one holder and passes in order of arrival",
  "At most one request holds the turn: it is granted exactly to a request whose own attempt took it while free, and a held turn is never disturbed by another's attempt. A refused request is registered once, at the end of the line. Releasing frees the turn, then wakes exactly the longest-waiting request (nobody if none waits), and does so while holding no internal lock, so that the woken request may try at once.",
  ["histories", "schedules"], "every number of waiting requests, and attempts of other requests between any two steps",
  "The unit tests queue three fixed requests on one thread with wakers that only log; none calls back into the queue or races with another request.",
  ["src/async_waiter.rs"], [("turn flag", "src/async_waiter.rs try_lock"), ("FIFO of wakers", "src/async_waiter.rs unlock")],
  state=[("turn", "held or free", "AsyncWaiter"), ("line", "refused requests in order", "AsyncWaiter")]),
P("M01", "A stream id names one stream, once; dead streams stay dead",
  "Every created stream gets an id nobody ever had, whatever other requests create at the same time and even after all streams were cleared between requests. What is done to one stream is never seen on another. Once a stream has been closed, or all streams cleared, its id reaches nothing: reads and writes fail, closing it again closes nothing, and a read that was waiting meanwhile ends with its own chunk or an error without bringing the stream back.",
  ["histories", "schedules"], "every sequence of create, write, read, close and clear, with reads in flight and ids drawn concurrently",
  "The unit tests use one stream each; reuse after clear, reads in flight across a close and late operations of an earlier request never occur in them.",
  ["src/runtime/stream_manager.rs"], [("id counter", "src/runtime/stream_manager.rs create_stream"), ("removal", "src/runtime/stream_manager.rs close_stream / clear"), ("receiver taken and put back", "src/runtime/stream_manager.rs read_chunk")],
  state=[("senders, receivers, metadata", "the live streams", "StreamManager")]),
P("M02", "A stream delivers its chunks in order, within its bound, to one reader",
  "Chunks come out in the order they were accepted, each once and unaltered. At most the high-water mark of chunks is buffered: a non-waiting write is refused exactly when the buffer is full (and leaves the stream as it was), a waiting write waits exactly while it is full and then appends once. Only one reader is served at a time; a second one is refused without disturbing the first. After the end marker or an error nothing can be read or written and the writing side is told so; when the consumer goes away, writers (waiting ones too) get an error and the stream no longer counts as open. No internal lock is held while waiting.",
  ["inputs", "histories", "schedules"], "every high-water mark and buffered count, every order of waiting and non-waiting reads and writes, disconnection at any point",
  "The unit tests fill a buffer of two on one task; waiting writers, second readers and consumers that leave while a writer waits are not exercised.",
  ["src/runtime/stream_manager.rs"], [("bounded channel", "src/runtime/stream_manager.rs create_stream"), ("send without the lock", "src/runtime/stream_manager.rs write_chunk"), ("exclusive receiver", "src/runtime/stream_manager.rs read_chunk")]),
P("M03", "The body pump forwards everything, in order, with one end marker",
  "Pumping a request body makes the stream exist before the pump runs, forwards every chunk unaltered and in order, ends the stream with exactly one end marker that tells a complete body from a failed one, reads ahead of a slow consumer by at most one chunk beyond the stream's bound, and stops when the consumer has gone, holding no internal lock while it waits.",
  ["schedules", "fault_sequences"], "schedules of producer, pump and consumer; clean end, failure and leaving consumer",
  "No unit test runs the pump.",
  ["src/runtime/stream_manager.rs"], [("pump task", "src/runtime/stream_manager.rs pump_request_body")]),
P("R01", "A digest is the named hash of exactly the bytes given",
  "The digest native returns, for each of SHA-1, SHA-256, SHA-384 and SHA-512 (named without regard to case), the hash of exactly the bytes the given Uint8Array covers, in an ArrayBuffer of exactly the hash's length; for any other algorithm name, argument type or missing argument it returns nothing (undefined), never some other hash.",
  ["inputs"], "every content and length of the view, every offset in its buffer, every name and argument type",
  "The tests hash a few fixed strings with whole-buffer views, and need an engine; views at an offset, other types and case variants are not sampled.",
  [CR + "digest.rs", "src/v8_helpers.rs"], [("native digest", CR + "digest.rs setup_digest"), ("result buffer", "src/v8_helpers.rs create_array_buffer_from_vec")]),
P("R02", "Signing and verifying never confuse key, data, hash or result",
  "The HMAC, ECDSA P-256 and RSA PKCS#1 v1.5 natives sign exactly the given bytes under exactly the given key and the named hash, and return the complete signature; a verification is true exactly when the cryptographic library accepts this signature for this key, this data and this hash, and false on every other input, wrong type, unknown hash or unreadable key. A signing or generation that fails returns nothing. A generated key pair is one pair: its public half belongs to its private half.",
  ["inputs", "fault_sequences"], "every key, data, signature, name and argument type; failure of every library call",
  "Tests sign and verify one fixed message per algorithm; swapped arguments of equal type, other hashes and failing library calls are not sampled.",
  [CR + "hmac.rs", CR + "ecdsa.rs", CR + "rsa.rs"], [("HMAC", CR + "hmac.rs setup_hmac"), ("ECDSA", CR + "ecdsa.rs setup_ecdsa"), ("RSA", CR + "rsa.rs setup_rsa")]),
P("R03", "PBKDF2 derives exactly what was asked for, within bounds",
  "The PBKDF2 native derives exactly length/8 bytes from exactly the given password and salt with the named hash and the iteration count asked for; anything else returns nothing. A length beyond what a key can have (2^32-1 bits) never reaches the allocator, so that no argument can abort the process.",
  ["inputs"], "every password, salt, hash name, iteration count and length (any number at all)",
  "The test derives 256 bits once; swapped password and salt, other hashes and enormous lengths are not sampled.",
  [CR + "pbkdf2.rs"], [("native derivation", CR + "pbkdf2.rs setup_pbkdf2")]),
P("R04", "Random values are really random, completely filled, and stay in their array",
  "When getRandomValues returns normally for a typed array, exactly that array was filled, from its first to its last byte, by the system's secure generator, and no byte outside the array was touched; otherwise it throws: an array is never left unfilled silently, and no argument (an empty array included) makes it panic. randomUUID returns the text of a fresh version-4 UUID.",
  ["inputs", "fault_sequences"], "every array type, length and offset in its buffer; failure of the system generator",
  "The test fills one whole Uint8Array and looks for a non-zero byte; empty arrays, views at an offset, other array types and a failing generator are not sampled.",
  [CR + "random.rs"], [("fill and copy back", CR + "random.rs setup_get_random_values"), ("UUID", CR + "random.rs setup_random_uuid")]),
P("T02", "Text conversion natives convert exactly the bytes and text they are given",
  "The encode native returns a Uint8Array that covers its whole buffer and holds exactly the UTF-8 form of its argument's text. The decode native decodes exactly the bytes the given view or buffer covers, in the encoding its label names (UTF-8 if none is given), replacing malformed input unless fatal mode is asked for, in which case it throws a TypeError; it throws a TypeError for anything that is no buffer, a RangeError for an unknown label, and returns the empty text for no input.",
  ["inputs"], "every content, length and offset, every label, fatal mode on and off, every argument type",
  "Tests decode short whole-buffer UTF-8 arrays; views, other encodings, fatal mode and error kinds are not sampled.",
  ["src/runtime/text_encoding.rs", "src/v8_helpers.rs"], [("encode", "src/runtime/text_encoding.rs text_encode"), ("decode", "src/runtime/text_encoding.rs text_decode")]),
P("C01", "A code-cache bundle gives back exactly what was packed; bad input is refused",
  "Packing a source and its compiled cache and unpacking the result returns exactly that source and exactly that cache, for any contents and lengths. Unpacking any bytes at all never panics or reads out of bounds: anything that does not start with the bundle's magic number, is truncated inside the header or the source, or whose source is not UTF-8 is refused (None). A bundle is recognised exactly by its magic number.",
  ["inputs"], "every byte string of any length, as source, as cache, and as alleged bundle",
  "The tests round-trip one short script and reject two fixed inputs; truncations, length fields pointing past the end and arithmetic at the limits are not sampled.",
  ["src/snapshot.rs"], [("writer", "src/snapshot.rs pack_code_cache"), ("reader", "src/snapshot.rs unpack_code_cache"), ("recogniser", "src/snapshot.rs is_code_cache")]),
P("P01", "A request only ever runs on an isolate of its own owner, within the limits",
  "Acquisition hands out an isolate of the request's owner and never another owner's: one of the pool with capacity if there is one (and only that is reported as a hit), otherwise a new one made with the pool's limits. An owner already at its isolate limit is refused and nothing changes. An isolate is evicted only to make room in a full pool, only when it runs no request, the one used longest ago, and running requests are never disturbed; the pool exceeds its maximum only while all its isolates are busy, and the surplus is reclaimed as soon as it is free.",
  ["inputs", "histories"], "every mix of owners, running requests, last uses, limits (pools of up to three isolates)",
  "The pool's tests need the engine and a thread pool; they run one owner at a time and never fill the pool with busy isolates.",
  [PO, "src/pool_common.rs"], [("acquisition", PO + " ThreadLocalPool::acquire"), ("reclaim", PO + " ThreadLocalPool::cleanup_overlimit")],
  state=[("pool", "isolates of this thread with their owners", "ThreadLocalPool.isolates")], observe=["isolate of the result", "cache_hit", "stats"]),
P("P02", "A warm context serves only its own worker, version and environment",
  "A request reuses a cached context exactly when one cached on its isolate was made for the same worker, version and environment stamp and has not reached its reuse limit; it is reset first, and the warm-hit hook is told, with that context's operations, before the task runs. Otherwise a fresh context runs this request's script. The task runs exactly once and its own result is returned. Afterwards the context is cached under exactly what it ran for, with its use counted, unless its execution or background work failed; the cache never exceeds its size and gives up the least recently used. Every context is cached or destroyed, exactly once, and destroyed only under its isolate's lock.",
  ["inputs", "histories", "fault_sequences"], "every content of the cache (up to two contexts), every request, failure of reset, creation, execution and draining",
  "Warm-cache tests need the engine; they run a single worker with one version, and no failure of reset or draining.",
  [PO], [("lookup and reset", PO + " execute_pinned"), ("caching", PO + " TaggedIsolateInner::cache"), ("destruction", PO + " impl Drop for TaggedIsolate")],
  state=[("cached contexts", "contexts kept for reuse with worker, version, environment, uses", "TaggedIsolateInner.cached_contexts")], observe=["context executed", "contexts destroyed", "hook calls"]),
P("P03", "An execution slot is taken once and always given back",
  "An isolate gives out a slot exactly while fewer requests run on it than its capacity, and it is free exactly when none does. A pinned request takes one slot of one isolate and gives that same slot back exactly once, however it ends: success, error, failed reset or creation, or being abandoned at any point where it waits. Two owners never share an isolate. An abandoned request leaves the isolate unlocked and usable, and its context is never reused.",
  ["histories", "schedules", "fault_sequences"], "every order of takes and releases, every outcome, and abandonment at any await",
  "No test drops an execution half way (a client that disconnects, an outer timeout); a lost slot shows only as a pool that slowly stops answering.",
  [PO], [("slots", PO + " TaggedIsolate::try_acquire / release"), ("release on every path", PO + " execute_pinned, release_to_local_pool")],
  state=[("slots in use", "requests running on an isolate", "TaggedIsolate.concurrency")], observe=["is_free()", "stats().in_use"]),
P("E01", "Callbacks are handled in order, each once, and none is left unwoken",
  "One drain of the callback channel handles every message that was there, each exactly once and in the order sent, then runs V8's own pending work and microtasks exactly once, and reports how many messages it handled. It leaves the buffer empty and the calling task's waker registered with the then-empty channel, so the next message wakes the task. A closed channel is reported as an error.",
  ["inputs", "histories"], "any number of messages, channel open or closed",
  "Ordering and wake-up tests need an engine and an event loop; they send a few messages and cannot observe a waker that is not registered.",
  ["src/event_loop.rs"], [("drain", "src/event_loop.rs drain_and_process")], observe=["messages handled", "result", "waker registered"]),
P("E02", "The event loop works only in turn, stops at once, and never sleeps unwoken",
  "Each poll of a waiting request: out of turn it does nothing and waits; otherwise it takes its isolate's lock (pooled isolates) and, on every way out, gives back both lock and turn. A terminated execution (V8 terminating, wall clock, CPU) fails at once without running callbacks. Otherwise callbacks are drained and the phase's exit condition evaluated after each round; the wait ends successfully exactly when it holds, or when, with disconnect detection, the request is complete and the grace period since a seen disconnect has passed. The disconnect is signalled to JS exactly once. A lost event loop is an error. A poll that waits leaves the task's waker registered with the callback channel and with the wall-clock timeout.",
  ["inputs", "schedules", "histories"], "every state of the page, the turn, the guards and the clock at every poll, pooled or not, queued or not",
  "A missed wake-up, a lock kept across a wait or a disconnect seen twice depends on the exact interleaving of polls with callbacks, timeouts and other requests; tests sample a handful.",
  [EC, WK, "src/worker_future.rs"], [("pooled loop", EC + " await_event_loop"), ("exit check", EC + " check_exit_with_abort"), ("worker loop", WK + " await_event_loop"), ("future", "src/worker_future.rs WorkerFuture::poll")],
  state=[("turn and lock", "who may use the isolate", "AsyncWaiter, LockerManagedIsolate"), ("disconnect time", "when the client was seen gone", "abort_signaled_at")], observe=["poll result", "locks held", "wakers registered", "disconnect signals"]),
P("X01", "An execution is guarded by its limits and reports what ended it",
  "An execution runs under a wall-clock guard and (where available) a CPU guard, armed with exactly its isolate's limits and on its own isolate before any of its code runs, and disarmed when it ends; background work gets fresh ones and is awaited until all of it is done. A request already aborted runs nothing and reports Aborted; an event whose request was already taken is an error and runs nothing. The result names the cause in this order: CPU limit, wall clock, memory limit, abort, iteration limit or exception with its own message; it is a success only if none of them happened.",
  ["inputs", "histories", "fault_sequences"], "every combination of tripped guards, flags and outcomes, both kinds of event, both kinds of isolate",
  "Several limits can trip at once (a termination surfaces as an exception too); tests trip one at a time.",
  [EC, WK], [("pooled execution", EC + " exec, drain_waituntil"), ("verdict", EC + " check_termination_reason"), ("worker execution", WK + " exec, check_termination_reason")], observe=["result", "guards armed", "events run"]),
P("D01", "Each async result settles its own operation, once, and nothing else",
  "When the outcome of an operation (fetch, stream read, storage, KV, database, WebSocket connect) reaches JavaScript, the operation's own resolve or reject function is called exactly once with exactly that outcome, failures as an Error carrying the reason; afterwards neither of its functions is kept, so it can never be settled again. A timer fires as __executeTimer with its own number on the global; a socket event reaches its own listener, which stays until the socket is closed. Outcomes of unknown operations do nothing. Other operations, also those JavaScript starts meanwhile, are untouched, no table is in use while JavaScript runs, and all messages present are delivered before the microtasks run.",
  ["inputs", "histories"], "every kind of outcome, operation id and payload, known and unknown operations, pooled and own isolates",
  "Crossed or leaked callbacks need several operations in flight, late results and JavaScript re-entering the runtime; tests await one operation at a time and need an engine.",
  [EC, RT], [("pooled delivery", EC + " process_single_callback"), ("own delivery", RT + " process_callbacks, process_single_callback"), ("dispatch", RT + " dispatch_binding_callbacks, dispatch_ws_event")],
  state=[("callback tables", "pending operations' resolve and reject functions, stream reads, socket listeners", "RequestContext, Runtime")], observe=["functions called, with what", "entries left"]),
P("E03", "A fetch request goes through its phases in order and is answered once",
  "A fetch event's handler is called exactly once, first, with the request's own address, method, headers and body; a streamed body is pumped into a stream of this request before that, and the handler is told that stream. Then its response is awaited, read once with the configured stream bound, and sent to the caller exactly once and unaltered, before what is left of the request (its response streams; for a worker with its own isolate background work too) is awaited with disconnect detection. A failing phase ends the request with that error; without a response read nothing is sent. V8 is used only under the lock and in turn, both are given back after every step, and no step is taken out of turn.",
  ["inputs", "schedules", "fault_sequences"], "every kind of body, failure of every phase, pooled or not, queued or not, a caller that listens or is gone",
  "Phase order matters only with slow bodies, failing handlers or contended isolates; tests send complete requests one at a time and need an engine.",
  [EC, WK], [("pooled fetch", EC + " trigger_fetch_event"), ("worker fetch", WK + " trigger_fetch_event")], observe=["handler calls", "response sent", "order of waits", "result"]),
]
NOT_APPLICABLE = {}
